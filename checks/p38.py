"""P38: calls of spec/CallContracts.tla made in the library, each in a process of its own."""
import os, vlib, algebra, eigen
from concurrent.futures import ThreadPoolExecutor

CFG = """CONSTANTS
 Routines <- RoutinesC
 Forms = {%d}
 Grids <- GridsC
 Bases <- BasesC
 MaxEdits = %d
 Thin = %d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Fits Closed OnOneProcess Emit
"""
RUN = "---- MODULE ConRun ----\nEXTENDS CallContracts\nRoutinesC == {%s}\nGridsC == <<%s>>\nBasesC == <<%s>>\n====\n"
GROUPS = ["1,2,3,5,6,7,14,15,20", "4,16,17,18,19", "8,9,11,13", "10,12"]
LIGHT = ["-UDLAF_ASSERT_MODERATE_ENABLE", "-UDLAF_ASSERT_HEAVY_ENABLE"]


def build(c):
    units = [(n, h, ns, m, ["double"]) for n, h, ns, m, t in eigen.UNITS]
    units += [("call%d" % k, *algebra.ETI[k], ["double"]) for k in (3, 5, 6, 7)]
    srcs = ["p38_contracts.cpp"] + [algebra.instantiate(c, *u) for u in units]
    srcs.append(algebra.instantiate(c, "norm", "auxiliary/norm/mc.h", "auxiliary::internal", "DLAF_NORM_ETI", ["double"], backend=""))
    return c.compile_sim("contracts", srcs, eigen.SIM, flags=LIGHT)


def run(c):
    T = vlib.THOROUGH
    c.bounds = "all calls one change away from fitting ones, %s of those two changes away; grids up to 2x3" % ("all" if T else "every second to sixth")
    grids = "<<1, 1>>, <<2, 1>>, <<2, 3>>" if not T else "<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 1>>"
    bases = "<<0, 3, 2, 3>>, <<1, 2, 4, 2>>, <<5, 3, 2, 3>>, <<8, 5, 4, 2>>"
    if T:
        bases += ", <<4, 4, 4, 4>>, <<7, 1, 3, 2>>, <<9, 0, 6, 2>>"
    with ThreadPoolExecutor(9) as ex:
        fexe = ex.submit(build, c)
        fs = [(g, d, ex.submit(c.tlc, "ConRun", CFG % (d, 2, (1 if T else 2 if d == 0 else 6)), None, {"ConRun": RUN % (g, grids, bases)}, 1, 3000, tag="Contracts-%d-%d" % (i, d)))
              for i, g in enumerate(GROUPS) for d in (0, 1)]
        p = os.path.join(c.dir, "calls")
        k = 0
        with open(p, "w") as fh:
            for i, (g, d, f) in enumerate(fs):
                q = "%s-%d" % (p, i)
                n = c.emit_cases(f.result()[1], q).get("K", 0)
                if n < 50:
                    raise vlib.CheckError("too few calls: %d" % n)
                k += n
                fh.write(open(q).read())
        c.traces += k
        c.samples += open(p).readlines()[::max(1, k // 3)][:4]
        c.log("%d calls" % k)
        exe = fexe.result()
        n = 8
        rs = [ex.submit(c.replay_driver, [exe, p, str(vlib.SEED), str(i), str(n)], what="calls", timeout=3000) for i in range(n)]
        kv = [r.result() for r in rs]
        c.cov["calls"] = dict(calls=k, fitting=sum(x.get("fitting", 0) for x in kv))
    c.assumptions = ["pika, MPI and Umpire are represented by the stand-ins of shim/", "assertions of the level the library has by default in release builds"]
