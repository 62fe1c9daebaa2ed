"""P10: spec/ThreadScope.tla behaviours replayed into SingleThreadedBlasScope."""
import vlib


def run(c):
    T = vlib.THOROUGH
    cfg = "CONSTANTS\n Threads = 2\n Counts = {%s}\n Depth = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Inside Balanced Emit\n"
    exe = c.compile("p10", ["p10_scope.cpp", vlib.REPO + "/src/common/single_threaded_blas.cpp"])
    tot = {}
    p = c.dir + "/cases"
    with open(p, "w") as f:
        for tag, cnts, d, args in (("all", "1, 3", 5 if T else 4, ()),
                                   ("long", "1, 2, 3, 5", 20, ("-simulate", "num=%d" % (1500 if T else 200), "-depth", "22", "-seed", str(vlib.SEED)))):
            _, out, _ = c.tlc("ThreadScope", cfg % (cnts, d), tag=tag, args=args)
            for a, b in c.emit_cases(out, c.dir + "/" + tag).items():
                tot[a] = tot.get(a, 0) + b
            f.write(open(c.dir + "/" + tag).read())
    if tot.get("B", 0) < 500:
        raise vlib.CheckError("too few behaviours %s" % tot)
    kv = c.replay_driver([exe, p], what="scope replay", timeout=600, env={"OMP_NUM_THREADS": "4", "OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false"})
    c.traces = tot["B"]
    c.samples = [l.strip()[:200] for l in open(p).readlines()[::2500][:5]]
    c.cov.update({"behaviours_replayed": tot, "comparisons": kv.get("comparisons", 0)})
    c.assumptions = ["built without MKL: only the OpenMP thread count is observable here"]
