"""P08: spec/CommHandles.tla behaviours replayed into Communicator on 1 and 4 ranks."""
import vlib

SRC = ["p08_comm.cpp"] + [vlib.REPO + "/src/communication/" + f for f in ("communicator.cpp", "communicator_impl.cpp")]


def run(c):
    T = vlib.THOROUGH
    cfg = "CONSTANTS\n Slots = %d\n Users = 2\n Depth = %d\n MaxComm = 40\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS UserKept NoUseAfterFree OnlyManaged LastOut Emit\nPROPERTY FreedForGood\n"
    exe = c.compile("p08", SRC)
    tot = 0
    for tag, s, d, args, n in (("all", 3, 5 if T else 4, (), 1), ("two", 2, 5 if T else 4, (), 4),
                               ("long", 4, 20, ("-simulate", "num=%d" % (2000 if T else 250), "-depth", "22", "-seed", str(vlib.SEED)), 4),
                               ("long3", 3, 12, ("-simulate", "num=%d" % (1000 if T else 100), "-depth", "14", "-seed", str(vlib.SEED + 7)), 3)):
        _, out, _ = c.tlc("CommHandles", cfg % (s, d), tag=tag, args=args)
        p = c.dir + "/" + tag
        k = c.emit_cases(out, p)
        if k.get("H", 0) < 50:
            raise vlib.CheckError("too few behaviours %s" % k)
        kv = c.replay_driver([exe, p], mpi=n, what="handle histories %s on %d ranks" % (tag, n), timeout=600)
        tot += k["H"]
        c.cov[tag] = dict(k, ranks=n, comparisons=kv.get("comparisons", 0))
        c.samples.append(open(p).readlines()[-3].strip()[:200])
    c.traces = tot
    c.assumptions = ["MPI_Comm_compare distinguishes a duplicate (congruent) from the same communicator"]
