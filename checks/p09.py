"""P09: spec/Collectives.tla x spec/Layouts.tla replayed into the blocking communication layer."""
import vlib
import p06

SRC = ["p09_sync.cpp"] + [vlib.REPO + "/src/communication/" + f for f in ("communicator.cpp", "communicator_impl.cpp", "datatypes.cpp")]


def run(c):
    T = vlib.THOROUGH
    p, k = p06.cases(c, *((6, 5, 3, 12) if T else (5, 4, 3, 12)))
    _, out, _ = c.tlc("Collectives", "CONSTANTS\n MaxRanks = %d\n Count = 12\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OrderFree Emit\n" % (6 if T else 5))
    q = c.dir + "/ops"
    k2 = c.emit_cases(out, q)
    allc = c.dir + "/all"
    with open(allc, "w") as f:
        f.write(open(q).read())
        f.write(open(p).read())
    if k2.get("O", 0) < 16 or k.get("C", 0) < 50:
        raise vlib.CheckError("too few cases %s %s" % (k, k2))
    exe = c.compile("p09", SRC)
    for n in ((1, 2, 3, 4, 5, 6) if T else (1, 2, 3, 4)):
        kv = c.replay_driver([exe, allc], mpi=n, what="collectives on %d ranks" % n, timeout=600)
        c.traces += kv.get("cases", 0)
        c.cov["ranks_%d_comparisons" % n] = kv.get("comparisons", 0)
    c.samples = [l.strip()[:200] for l in open(q).readlines()[:3]] + [l.strip()[:200] for l in open(p).readlines()[400:2000:700]]
    c.cov["layout_pairs"] = k["C"]
    c.assumptions = ["integer-valued data, so MPI's reduction order cannot change results (OrderFree, checked by TLC)"]
