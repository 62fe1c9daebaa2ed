"""P40: behaviours of spec/TileKernels.tla replayed into the kernels on tiles."""
import os, vlib
from concurrent.futures import ThreadPoolExecutor

CFG = "CONSTANTS\n Seeds <- SeedsC\n Ops <- OpsC\n Depth = %d\n DMax = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Equations Local Exact Emit\n"
RUN = "---- MODULE TkRun ----\nEXTENDS TileKernels\nSeedsC == %d..%d\nOpsC == <<%s>>\n====\n"
ALL = ",".join(map(str, range(1, 26)))


def run(c):
    T = vlib.THOROUGH
    c.bounds = "tiles up to 4x4 (5x5) within a larger one, 16 calls each, all flags, four element types"
    jobs, per = 6, (1200 if T else 200)
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(c.compile_sim, "kernels", ["p40_kernels.cpp"], list(dict.fromkeys(vlib.Check.CORE + vlib.Check.KERNELS)), types="sdcz")
        fs = []
        for i in range(jobs):
            lo = 1 + (vlib.SEED * 14033 + i * 5003) % 37000
            fs.append(ex.submit(c.tlc, "TkRun", CFG % (16, 4), None, {"TkRun": RUN % (lo, lo + per - 1, ALL)}, 1, 3000, tag="TileKernels-%d" % i))
        exe = fexe.result()
        rs = []
        for i, fu in enumerate(fs):
            p = os.path.join(c.dir, "beh%d" % i)
            k = c.emit_cases(fu.result()[1], p).get("K", 0)
            if k < per:
                raise vlib.CheckError("too few behaviours: %d of %d" % (k, per))
            c.traces += k
            c.samples.append(open(p).readlines()[-1].strip()[:300]) if len(c.samples) < 4 else None
            rs.append((i, k, ex.submit(c.replay_driver, [exe, p, str(vlib.SEED), "3"], what="behaviours %d" % i, timeout=3000)))
        for i, k, r in rs:
            kv = r.result()
            c.cov["behaviours %d" % i] = dict(behaviours=k, runs=kv.get("runs", 0), comparisons=kv.get("comparisons", 0))
    c.assumptions = ["pika and Umpire are represented by the stand-ins of shim/; blaspp, lapackpp and OpenBLAS are the installed ones",
                     "entries are Gaussian integers, norms are of entries on an axis, tridiagonal matrices are diagonal"]
