"""P20: the protocol of spec/PanelBroadcast.tla is checked exhaustively; rounds of its second part are replayed into the
panel broadcasts on simulated processes."""
import os
import vlib
from concurrent.futures import ThreadPoolExecutor

PROTO = "CONSTANTS\n Confs <- ConfsC\n Plans <- PlansC\n Seeds = {}\n Depth = 0\n NMax = 0\n Grids = 0\n Mode = \"protocol\"\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Right Agree NoDeadlock\n"
GEN = "CONSTANTS\n Confs = {}\n Plans = {}\n Seeds <- SeedsC\n Depth = %d\n NMax = %d\n Grids <- GridsC\n Mode = \"rounds\"\nSPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS Emit\n"
RUN1 = "---- MODULE BcastProto ----\nEXTENDS PanelBroadcast\nConfsC == {%s}\nPlansC == {%s}\n====\n"
RUN2 = "---- MODULE BcastGen ----\nEXTENDS PanelBroadcast\nSeedsC == %d..%d\nGridsC == <<<<1, 1>>, <<2, 2>>, <<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 2>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 3>>>>\n====\n"


def run(c):
    T = vlib.THOROUGH
    jobs, n = 6, (2500 if T else 400)
    proto = [("<<2, 2, 2, 0, 0>>, <<2, 2, 2, 0, 1>>", "<<<<0, 2, 0, 2, 0>>>>, <<<<0, 2, 1, 2, 1>>>>"),
             ("<<2, 2, 1, 1, 0>>, <<2, 1, 2, 0, 1>>, <<2, 1, 3, 0, 2>>, <<2, 3, 1, 1, 0>>",
              "<<<<0, 2, 0, 2, 0>>, <<1, 2, 1, 2, 0>>>>, <<<<0, 2, 1, 2, 0>>, <<0, 1, 0, 1, 0>>>>, <<<<0, 2, 2, 1, 0>>, <<0, 2, 0, 2, 0>>>>"),
             ("<<3, 2, 1, 0, 0>>, <<3, 1, 2, 0, 1>>, <<3, 3, 1, 2, 0>>", "<<<<0, 3, 0, 3, 0>>>>, <<<<1, 3, 2, 3, 0>>>>")]
    if T:
        proto += [("<<2, 2, 2, 1, 0>>", "<<<<0, 2, 0, 2, 0>>, <<1, 2, 1, 2, 1>>>>"), ("<<3, 2, 2, 0, 1>>, <<3, 2, 3, 1, 1>>", "<<<<0, 3, 1, 3, 1>>>>")]
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(c.compile_sim, "bcast", ["p20_bcast.cpp"], vlib.Check.CORE + vlib.Check.KERNELS, types="dz")
        ps = [ex.submit(c.tlc, "BcastProto", PROTO, None, {"BcastProto": RUN1 % p}, 2, 1500, (), tag="proto-%d" % i) for i, p in enumerate(proto)]
        fs = []
        for i in range(jobs):
            lo = 1 + (vlib.SEED * 16127 + i * 5701) % 37000
            fs.append(ex.submit(c.tlc, "BcastGen", GEN % (4 + i % 3, 6 + 3 * (i % 3)), None, {"BcastGen": RUN2 % (lo, lo + n - 1)}, 1, 1500, (), tag="rounds-%d" % i))
        exe = fexe.result()
        rs = []
        for i, f in enumerate(fs):
            p = os.path.join(c.dir, "beh%d" % i)
            k = c.emit_cases(f.result()[1], p).get("B", 0)
            if k < n:
                raise vlib.CheckError("too few behaviours: %d" % k)
            c.traces += k
            if i < 3:
                c.samples.append(open(p).readlines()[-1].strip()[:300])
            rs.append((i, k, ex.submit(c.replay_driver, [exe, p, str(vlib.SEED), str(32 if T else 12)], what="rounds %d" % i, timeout=3000)))
        for f in ps:
            f.result()
        for i, k, r in rs:
            kv = r.result()
            c.cov["rounds %d" % i] = dict(behaviours=k, runs=kv.get("runs", 0), comparisons=kv.get("comparisons", 0), messages=kv.get("messages", 0))
    c.assumptions = ["pika, MPI and Umpire are represented by the stand-ins of shim/",
                     "the panels of a transposed broadcast store tiles of the same shape (one of them is stored transposed), as its users have it"]
