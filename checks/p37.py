"""P37: behaviours of spec/CompactWY.tla replayed into the T factor and the two back-transformations."""
import os, vlib, algebra, eigen
from concurrent.futures import ThreadPoolExecutor

CFG = """CONSTANTS
 Seeds <- SeedsC
 NMax = %d
 Grids <- GridsC
 Modes <- ModesC
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Shape CompactForm ColumnForm Regroup Small Emit
"""
RUN = "---- MODULE WyRun ----\nEXTENDS CompactWY\nSeedsC == %d..%d\nGridsC == <<%s>>\nModesC == <<%d>>\n====\n"
NAMES = {1: "T factor", 2: "reduction to band", 3: "band to tridiagonal"}


def run(c):
    T = vlib.THOROUGH
    c.bounds = "matrices up to 24x24, bandwidths up to 6, panels of up to 5 columns, grids up to 2x3, groups of 1 to 64 reflectors"
    plan = [(1, 9, 500), (2, 13, 350), (2, 24, 40), (3, 13, 350), (3, 24, 40)]
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(eigen.build, c, "p37_wy.cpp", ["btb2t", "btr2b", "tfac"], "wy")
        fs = []
        for i, (mode, nmax, n) in enumerate(plan):
            n *= 15 if T else 1
            lo = 1 + (vlib.SEED * 15013 + 411 + i * 1709) % 30000
            fs.append((i, mode, n, ex.submit(c.tlc, "WyRun", CFG % (nmax + (6 if T and nmax > 20 else 0)), None, {"WyRun": RUN % (lo, lo + n - 1, algebra.GRIDS, mode)}, 1, 3000, tag="CompactWY-%d" % i)))
        exe = fexe.result()
        rs = []
        for i, mode, n, fu in fs:
            p = os.path.join(c.dir, "beh%d" % i)
            k = c.emit_cases(fu.result()[1], p).get("W", 0)
            if k < n:
                raise vlib.CheckError("too few behaviours: %d of %d" % (k, n))
            c.traces += k
            if i in (0, 1, 3):
                c.samples.append(open(p).readlines()[-1].strip()[:300])
            rs.append(("%s %d" % (NAMES[mode], i), k, ex.submit(c.replay_driver, [exe, p, str(vlib.SEED), str(3 * (2 if T else 1))], what=NAMES[mode], timeout=3000)))
        for t, k, r in rs:
            kv = r.result()
            c.cov[t] = dict(behaviours=k, runs=kv.get("runs", 0), comparisons=kv.get("comparisons", 0), tasks=kv.get("tasks", 0), messages=kv.get("messages", 0))
    c.assumptions = ["pika, MPI and Umpire are represented by the stand-ins of shim/; blaspp, lapackpp and OpenBLAS are the installed ones",
                     "reflectors and matrices have small Gaussian integers as entries, on which double precision is exact",
                     "the tile for the T factor has as many rows and columns as the panel has reflectors; the matrices of one call share their source rank"]
