"""P18: programs of spec/Communications.tla: all interleavings of small ones are checked on the model, larger ones are
replayed into the asynchronous communication kernels on simulated processes."""
import os
import vlib
from concurrent.futures import ThreadPoolExecutor

CFG = "CONSTANTS\n Seeds <- SeedsC\n Depth = %d\n Grids <- GridsC\n Mode = \"%s\"\nSPECIFICATION %s\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n"
RUN = "---- MODULE CommRun ----\nEXTENDS Communications\nSeedsC == %d..%d\nGridsC == <<%s>>\n====\n"
GRIDS = "<<1, 1>>, <<2, 2>>, <<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 2>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 3>>"


def run(c):
    T = vlib.THOROUGH
    n, jobs = (1500 if T else 250), 6
    # (seeds, depth, grids, mode)
    deep = [(400, 3, "<<1, 2>>, <<2, 1>>", "rendezvous"), (400, 3, "<<1, 2>>, <<2, 1>>", "eager"), (40, 3, "<<2, 2>>, <<1, 3>>", "rendezvous")]
    if T:
        deep += [(1500, 5, "<<1, 2>>, <<2, 1>>", "rendezvous"), (800, 5, "<<1, 2>>, <<2, 1>>", "eager"), (60, 4, "<<2, 2>>, <<3, 1>>", "eager")]
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(c.compile_sim, "comm", ["p18_comm.cpp"], vlib.Check.CORE + vlib.Check.KERNELS, types="sdz")
        fs = []
        for i in range(jobs):
            lo = 1 + (vlib.SEED * 16127 + i * 5701) % 37000
            d = [4, 8, 12, 20, 30, 50][i]
            fs.append(ex.submit(c.tlc, "CommRun", CFG % (d, "programs", "GenSpec", "Emit"), None, {"CommRun": RUN % (lo, lo + n - 1, GRIDS)}, 1, 1500, (), tag="programs-%d" % d))
        ps = [ex.submit(c.tlc, "CommRun", CFG % (d, m, "Spec", "Terminates Serial Steady"), None,
                        {"CommRun": RUN % (1 + 500 * i + vlib.SEED, 500 * i + vlib.SEED + k, g)}, 2, 1500, (), tag="%s-%d" % (m, i))
              for i, (k, d, g, m) in enumerate(deep)]
        exe = fexe.result()
        rs = []
        for i, f in enumerate(fs):
            p = os.path.join(c.dir, "beh%d" % i)
            k = c.emit_cases(f.result()[1], p).get("C", 0)
            if k < n:
                raise vlib.CheckError("too few programs: %d" % k)
            c.traces += k
            if i < 3:
                c.samples.append(open(p).readlines()[-1].strip()[:300])
            rs.append((i, k, ex.submit(c.replay_driver, [exe, p, str(vlib.SEED), str(24 if T else 8)], what="programs %d" % i, timeout=3000)))
        for f in ps:
            f.result()
        for i, k, r in rs:
            kv = r.result()
            c.cov["programs %d" % i] = dict(programs=k, runs=kv.get("runs", 0), comparisons=kv.get("comparisons", 0), messages=kv.get("messages", 0))
    c.assumptions = ["pika, MPI and Umpire are represented by the stand-ins of shim/; messages need not be buffered, and complete in any order MPI allows"]
