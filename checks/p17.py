"""P17: seatings of spec/CommGrid.tla replayed into CommunicatorGrid on simulated processes."""
import vlib
from concurrent.futures import ThreadPoolExecutor

CORE = ["communication/communicator.cpp", "communication/communicator_impl.cpp", "communication/communicator_grid.cpp",
        "communication/datatypes.cpp", "tune.cpp"]


def run(c):
    T = vlib.THOROUGH
    lim = 16 if T else 9
    shapes = ["<<%d, %d, %d>>" % (r, q, e) for r in range(1, lim + 1) for q in range(1, lim + 1) if r * q <= lim
              for e in range(0, 4 if T else 3)]
    mod = {"CommGridRun": "---- MODULE CommGridRun ----\nEXTENDS CommGrid\nXS == %s\n====\n" % vlib.tla_set(shapes)}
    with ThreadPoolExecutor(2) as ex:
        f = ex.submit(c.compile_sim, "p17", ["p17_grid.cpp"], CORE)
        _, out, _ = c.tlc("CommGridRun", "CONSTANTS\n Shapes <- XS\n Emits = TRUE\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OneSeatEach AllTaken Ascending Emit\n", extra_tla=mod)
        exe = f.result()
    p = c.dir + "/cases"
    k = c.emit_cases(out, p).get("G", 0)
    if k != 2 * len(shapes):
        raise vlib.CheckError("expected %d seatings, got %d" % (2 * len(shapes), k))
    lines = open(p).readlines()
    parts = []
    for i in range(8):
        with open("%s%d" % (p, i), "w") as fh:
            fh.writelines(lines[i::8])
        parts.append("%s%d" % (p, i))
    with ThreadPoolExecutor(8) as ex:
        kvs = list(ex.map(lambda a: c.replay_driver([exe, a[1], str(vlib.SEED * 100003 + 7919 * a[0]), "30" if T else "8"], what="seatings"), enumerate(parts)))
    c.traces = k
    c.samples = [l.strip()[:200] for l in lines[5:8]]
    c.cov.update({"seatings": k, "runs": sum(x.get("runs", 0) for x in kvs), "comparisons": sum(x.get("comparisons", 0) for x in kvs)})
    c.assumptions = ["shim/vmpi.cpp implements MPI_Comm_split, MPI_Comm_dup and collectives as the MPI standard defines them"]
