"""P13: behaviours of spec/Pipelines.tla replayed into Pipeline and CommunicatorPipeline on the deterministic runtime."""
import vlib
from concurrent.futures import ThreadPoolExecutor

CFG = "CONSTANTS\n Depth = %d\n MaxPipes = %d\n MaxAcc = %d\n Lazy = %s\n EmitDepth = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS WritersAlone InOrder SeesLast AllServed%s\n"


def run(c):
    T = vlib.THOROUGH
    jobs = [("lazy", 4 if T else 3, 3, 5, "TRUE", (), 3, 8),
            ("plain", 6 if T else 4, 3, 6, "FALSE", (), 2, 4)]
    for i, (d, n) in enumerate(((7, 1500), (10, 1000), (16, 500))):
        num = n * (20 if T else 1)
        jobs.append(("long%d" % d, d, 4, 12, "TRUE" if i != 1 else "FALSE", ("-simulate", "num=%d" % num, "-depth", str(d + 2), "-seed", str(vlib.SEED + i)), 4, 8))
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(c.compile_sim, "p13", ["p13_pipeline.cpp"], ["communication/communicator.cpp", "communication/communicator_impl.cpp"])
        big = ex.submit(c.tlc, "Pipelines", CFG % (6 if T else 5, 3, 6, "FALSE", 99, ""), None, None, 4, 1500, tag="PipeDeep")
        fs = [ex.submit(c.tlc, "Pipelines", CFG % (d, p, a, lz, d, " Emit"), None, None, 1, 1500, args, tag="Pipe-" + t)
              for t, d, p, a, lz, args, _, _ in jobs]
        exe = fexe.result()
        big.result()
        outs = [f.result()[1] for f in fs]
        rs = []
        for (t, d, _, _, _, _, st, stT), o in zip(jobs, outs):
            f = c.dir + "/" + t
            k = c.emit_cases(o, f).get("H", 0)
            if k < 50:
                raise vlib.CheckError("too few behaviours for %s: %d" % (t, k))
            c.traces += k
            c.samples.append(open(f).readlines()[-2].strip()[:200])
            rs.append((t, k, ex.submit(c.replay_driver, [exe, f, str(d), str(stT if T else st), str(vlib.SEED * 1000003)], what="behaviours " + t, timeout=1200)))
        for t, k, r in rs:
            kv = r.result()
            c.cov[t] = dict(behaviours=k, runs=kv.get("runs", 0), tasks=kv.get("tasks", 0), comparisons=kv.get("comparisons", 0))
    c.assumptions = ["shim/pika/async_rw_mutex.hpp has the semantics pika documents for async_rw_mutex"]
