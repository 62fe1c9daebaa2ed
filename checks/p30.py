"""P30: histories of spec/GridContexts.tla replayed through the C interface on simulated processes."""
import vlib
from concurrent.futures import ThreadPoolExecutor

CORE = ["communication/communicator.cpp", "communication/communicator_impl.cpp", "communication/communicator_grid.cpp",
        "communication/datatypes.cpp", "tune.cpp", "c_api/grid.cpp", "c_api/utils.cpp", "matrix/distribution.cpp"]
CFG = "CONSTANTS\n Depth = %d\n Kinds = %s\n MaxLive = %d\n Blacs = %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OneGridPerTicket OnlyIssued Emit\nPROPERTY Stays\n"


def build(c):
    # the table of grids is exchanged when the simulated process changes; should it not be reachable by its name any
    # more, one process is simulated
    try:
        return c.compile_sim("p30", ["p30_contexts.cpp"], CORE, ["-DDLAF_WITH_SCALAPACK", "-DVF_TABLES"])
    except vlib.CheckError:
        return c.compile_sim("p30", ["p30_contexts.cpp"], CORE, ["-DDLAF_WITH_SCALAPACK"])


def run(c):
    T = vlib.THOROUGH
    jobs = [("create-free", CFG % (7 if T else 6, "{0, 1}", 4, "{}"), ()),
            ("blacs", CFG % (5 if T else 4, "{0, 1}", 4, "{0, 1}"), ())]
    for i, (d, n) in enumerate(((12, 150), (30, 60))):
        jobs.append(("long%d" % d, CFG % (d, "{0, 1, 2, 3, 4}", 6, "{0, 1}"),
                     ("-simulate", "num=%d" % (n * (20 if T else 1)), "-depth", str(d + 2), "-seed", str(vlib.SEED + i))))
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(build, c)
        fs = [ex.submit(c.tlc, "GridContexts", cfg, None, None, 1, 900, args, tag="Ctx-" + t) for t, cfg, args in jobs]
        exe = fexe.result()
        outs = [f.result()[1] for f in fs]
        rs = []
        for i, ((t, _, _), o) in enumerate(zip(jobs, outs)):
            f = c.dir + "/" + t
            k = c.emit_cases(o, f).get("C", 0)
            if k < 30:
                raise vlib.CheckError("too few histories for %s: %d" % (t, k))
            c.traces += k
            c.samples.append(open(f).readlines()[-2].strip()[:200])
            rs.append((t, k, ex.submit(c.replay_driver, [exe, f, str(vlib.SEED * 1009 + 31 * i), "4"], what="histories " + t, timeout=900)))
        for t, k, r in rs:
            c.cov[t] = dict(histories=k, comparisons=r.result().get("comparisons", 0))
    c.assumptions = ["the BLACS functions the interface calls are stand-ins of the harness",
                     "identifiers of freed grids may be given to new grids"]
