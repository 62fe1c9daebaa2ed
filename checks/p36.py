"""P36: programs of spec/CInterface.tla replayed through the C interface and its ScaLAPACK-like form."""
import os, vlib, algebra, eigen
from concurrent.futures import ThreadPoolExecutor

CFG = """CONSTANTS
 Seeds <- SeedsC
 NMax = %d
 Grids <- GridsC
 Modes <- ModesC
 CallDepth = %d
 Orders = {1, 2}
 Forms = {0, 1}
 Cases = {0, 1}
SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
INVARIANTS Problem Sound PEmit
"""
RUN = "---- MODULE CRun ----\nEXTENDS CInterface\nSeedsC == %d..%d\nGridsC == <<%s>>\nModesC == <<2>>\n====\n"
GRIDS = algebra.GRIDS.replace("<<0, 0>>, ", "")
TYPES = ["float", "double", "std::complex<float>", "std::complex<double>"]
API = ["c_api/%s.cpp" % x for x in ("grid", "utils", "factorization/cholesky", "inverse/cholesky", "eigensolver/eigensolver", "eigensolver/gen_eigensolver")]


def build(c):
    units = eigen.UNITS + [("cinv", *algebra.ETI[7]), ("tinv", *algebra.ETI[6])]
    srcs = []
    for n, h, ns, m, *t in units:
        parts = [[x] for x in TYPES] if n in ("tridiag", "b2t") else [TYPES[:2], TYPES[2:]]
        if t and len(t[0]) == 1:  # real only
            parts = parts[:len(parts) // 2]
        for i, types in enumerate(parts):
            srcs.append(algebra.instantiate(c, "%s%d" % (n, i), h, ns, m, types))
    srcs.append("c_api.cpp")
    core = sorted(set(eigen.SIM + API))
    try:
        return c.compile_sim("capi", srcs, core, ["-DDLAF_WITH_SCALAPACK", "-DVF_TABLES"], types="sdcz")
    except vlib.CheckError:
        return c.compile_sim("capi", srcs, core, ["-DDLAF_WITH_SCALAPACK"], types="sdcz")


def run(c):
    c.bounds = "programs of up to 12 steps, matrices up to 16x16, grids up to 2x3, every routine of the interface"
    T = vlib.THOROUGH
    plan = [("short", 3, 200, 8), ("medium", 6, 70, 9), ("long", 12, 25, 12), ("long2", 12, 25, 7)]
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(build, c)
        fs = []
        for i, (name, depth, n, nmax) in enumerate(plan):
            n *= 12 if T else 1
            lo = 1 + (vlib.SEED * 15013 + 907 + i * 1709) % 36000
            fs.append((name, n, ex.submit(c.tlc, "CRun", CFG % (nmax, depth), None, {"CRun": RUN % (lo, lo + 2000, GRIDS)}, 1, 3000,
                                          ("-simulate", "num=%d" % (n * 3), "-depth", str(depth + 12), "-seed", str(vlib.SEED + i)), tag="CInterface-" + name)))
        exe = fexe.result()
        rs = []
        for name, n, fu in fs:
            p = os.path.join(c.dir, name)
            k = c.emit_cases(fu.result()[1], p).get("P", 0)
            if k < n // 4:
                raise vlib.CheckError("too few programs %s: %d" % (name, k))
            c.traces += k
            c.samples.append(open(p).readlines()[-1].strip()[-300:])
            rs.append((name, k, ex.submit(c.replay_driver, [exe, p, str(vlib.SEED), str(2 * (4 if T else 1))], what="programs " + name, timeout=3000)))
        for name, k, r in rs:
            kv = r.result()
            c.cov[name] = dict(programs=k, runs=kv.get("runs", 0), comparisons=kv.get("comparisons", 0), tasks=kv.get("tasks", 0), messages=kv.get("messages", 0))
    c.assumptions = ["pika, MPI, Umpire and BLACS are represented by stand-ins; blaspp, lapackpp and OpenBLAS are the installed ones",
                     "results are compared with the exact ones up to rounding; arrays of one call share order of the grid, block size and source rank"]
