"""Shared by P21, P28, P29: behaviours of spec/DataMovement.tla replayed into the library's copies, permutations, setters."""
import os, vlib, algebra
from concurrent.futures import ThreadPoolExecutor

CFG = "CONSTANTS\n Seeds <- SeedsC\n Table <- TableC\n Depth = %d\n NMax = %d\n Square = %s\n Grids <- GridsC\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Emit\n"
RUN = "---- MODULE MovementRun ----\nEXTENDS DataMovement\nSeedsC == %d..%d\nTableC == <<%s>>\nGridsC == <<%s>>\n====\n"


def replay(c, plan, n, depth, nmax, schedules, perms=False, square=(), grids=algebra.GRIDS):
    """`plan`: one table of calls for every job; `square`: the jobs whose matrices are square, with square tiles."""
    T = vlib.THOROUGH
    per = n * (12 if T else 1)
    if perms:
        srcs = ["move.cpp", algebra.instantiate(c, "perm", "permutations/general/impl.h", "permutations::internal", "DLAF_PERMUTATIONS_GENERAL_ETI", ["float", "double"])]
    else:
        srcs = ["move.cpp", algebra.instantiate(c, "norm", "auxiliary/norm/mc.h", "auxiliary::internal", "DLAF_NORM_ETI", ["double", "std::complex<double>"], backend="")]
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(c.compile_sim, "move", srcs, algebra.SIM, ["-DPERMS=%d" % perms], types="sdz")
        fs = []
        for i, tb in enumerate(plan):
            lo = 1 + (vlib.SEED * 16127 + i * 701) % 39000
            fs.append(ex.submit(c.tlc, "MovementRun", CFG % (depth + (2 if T else 0), nmax + (3 if T else 0), "TRUE" if i in square else "FALSE"), None,
                                {"MovementRun": RUN % (lo, lo + per - 1, ", ".join(map(str, tb)), grids)}, 1, 3000, tag="Movement-%d" % i))
        exe = fexe.result()
        rs = []
        for i, fu in enumerate(fs):
            p = os.path.join(c.dir, "beh%d" % i)
            k = c.emit_cases(fu.result()[1], p).get("M", 0)
            if k < per // 2:
                raise vlib.CheckError("too few behaviours: %d of %d" % (k, per))
            c.traces += k
            if len(c.samples) < 4:
                c.samples.append(open(p).readlines()[-1].strip()[:300])
            rs.append((i, k, ex.submit(c.replay_driver, [exe, p, str(vlib.SEED), str(schedules * (4 if T else 1))], what="behaviours %d" % i, timeout=3000)))
        for i, k, r in rs:
            kv = r.result()
            c.cov["behaviours %d" % i] = dict(calls=str(plan[i]), behaviours=k, runs=kv.get("runs", 0), comparisons=kv.get("comparisons", 0), tasks=kv.get("tasks", 0), messages=kv.get("messages", 0))
    c.assumptions = ["pika, MPI and Umpire are represented by the stand-ins of shim/; blaspp, lapackpp and OpenBLAS are the installed ones"]
