"""P35: histories of spec/MemoryViews.tla replayed into views and chunks of memory."""
import vlib
from concurrent.futures import ThreadPoolExecutor
from p14 import CORE

CFG = "CONSTANTS\n M = %d\n C = %d\n K = %d\n Sizes = {%s}\n Depth = %d\n MaxMem = %d\n Offs = {%s}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Inside Owner Safe Emit\nPROPERTIES Stays\n"


def run(c):
    T = vlib.THOROUGH
    S = 20 if T else 1
    c.bounds = "up to 4 views of each kind and 3 chunks; all histories of length %d with two views, random ones up to 30" % (5 if T else 4)
    jobs = [("exhaustive", 1, 1, 0, "2", 5 if T else 4, 2, "0,1", 0),
            ("chunks", 1, 0, 2, "0,2", 5 if T else 4, 3, "0", 0),
            ("short", 2, 2, 1, "0,1,3", 9, 4, "0,1,2,3", 1500),
            ("long", 4, 3, 3, "0,1,2,5", 30, 9, "0,1,2,3,4", 300)]
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(c.compile_sim, "memory-driver", ["p35_memory.cpp"], CORE)
        fs = []
        for i, (t, m, cc, k, sz, d, mm, of, num) in enumerate(jobs):
            args = ("-simulate", "num=%d" % (num * S), "-depth", str(d + 2), "-seed", str(vlib.SEED + i)) if num else ()
            fs.append(ex.submit(c.tlc, "MemoryViews", CFG % (m, cc, k, sz, d, mm, of), None, None, 1, 1500, args, tag="Memory-" + t))
        exe = fexe.result()
        rs = []
        for i, (j, f) in enumerate(zip(jobs, fs)):
            o = f.result()[1]
            q = c.dir + "/" + j[0]
            k = c.emit_cases(o, q).get("V", 0)
            if k < 50:
                raise vlib.CheckError("too few histories for %s: %d" % (j[0], k))
            c.traces += k
            c.samples.append(open(q).readlines()[-2].strip()[:300])
            rs.append((j[0], k, ex.submit(c.replay_driver, [exe, q, str(vlib.SEED * 10007 + i)], what="histories " + j[0], timeout=900)))
        for t, k, r in rs:
            kv = r.result()
            c.cov[t] = dict(histories=k, comparisons=kv.get("comparisons", 0), probes=kv.get("probes", 0))
    c.assumptions = ["Umpire is represented by the stand-in of shim/ (fenced allocations)", "a view is not moved into itself"]
