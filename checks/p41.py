"""P41: behaviours of spec/AsyncCalls.tla and spec/TemporaryTile.tla replayed into the helpers for asynchronous calls."""
import os, vlib
from concurrent.futures import ThreadPoolExecutor

CFG = "CONSTANTS\n Seeds <- SeedsC\n NMax = %d\n Free = %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Once OnValues WritersAlone Denotes Ends Tame%s\n"
RUN = "---- MODULE AcRun ----\nEXTENDS AsyncCalls\nSeedsC == %d..%d\n====\n"
TCFG = "CONSTANTS\n Sizes <- SizesC\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Kept Written SeesInput NoLeak Emit\n"
TRUN = "---- MODULE TtRun ----\nEXTENDS TemporaryTile\nSizesC == {<<3, 2>>, <<1, 3>>, <<4, 4>>}\n====\n"


def run(c):
    T = vlib.THOROUGH
    c.bounds = "programs of 2-6 calls with up to 2 inputs each, every order of events for 2-3 calls in the model; all options of temporary tiles"
    per = 3000 if T else 600
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(c.compile_sim, "async", ["p41_async.cpp"], vlib.Check.CORE, types="dz", opt="-O0")
        jobs = []
        for i, n in enumerate((3, 4, 6)):
            lo = 1 + (vlib.SEED * 15013 + i * 9001) % 30000
            jobs.append((i, ex.submit(c.tlc, "AcRun", CFG % (n, "FALSE", " Emit"), None, {"AcRun": RUN % (lo, lo + per - 1)}, 1, 3000, tag="AsyncCalls-%d" % n), "K", per))
        lo = 1 + (vlib.SEED * 7013) % 30000
        free = ex.submit(c.tlc, "AcRun", CFG % (5 if T else 4, "TRUE", ""), None, {"AcRun": RUN % (lo, lo + 60)}, 3, 3000, tag="AsyncCalls-free")
        jobs.append((9, ex.submit(c.tlc, "TtRun", TCFG, None, {"TtRun": TRUN}, 1, 600, tag="TemporaryTile"), "T", 200))
        exe = fexe.result()
        rs = []
        for i, fu, kind, least in jobs:
            p = os.path.join(c.dir, "beh%d" % i)
            k = c.emit_cases(fu.result()[1], p).get(kind, 0)
            if k < least:
                raise vlib.CheckError("too few behaviours: %d of %d" % (k, least))
            c.traces += k
            c.samples.append(open(p).readlines()[-1].strip()[:300])
            rs.append((i, k, ex.submit(c.replay_driver, [exe, p, str(vlib.SEED), "8" if T else "4"], what="behaviours %d" % i, timeout=3000)))
        for i, k, r in rs:
            kv = r.result()
            c.cov["behaviours %d" % i] = dict(behaviours=k, runs=kv.get("runs", 0) + kv.get("temporaries", 0), comparisons=kv.get("comparisons", 0))
        free.result()
    c.assumptions = ["pika is represented by the stand-ins of shim/, with the completion and release semantics of its senders"]
