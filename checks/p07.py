"""P07: spec/MessageOwn.tla behaviours and spec/Layouts.tla pairs replayed into Message under MPI."""
import vlib
import p06


def run(c):
    T = vlib.THOROUGH
    p, k = p06.cases(c, *((6, 5, 3, 12) if T else (5, 4, 3, 12)))
    cfg = "CONSTANTS\n Slots = %d\n Kinds = {%s}\n Depth = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OneOwner OwnedCreated NoneLeft Emit\n"
    tot = dict(k)
    for tag, s, kinds, d, args in (("own3", 3, "0, 1", 6 if T else 5, ()), ("own2", 2, "0, 1, 2", 6 if T else 5, ()),
                                   ("ownlong", 3, "0, 1, 2", 25, ("-simulate", "num=%d" % (3000 if T else 400), "-depth", "27", "-seed", str(vlib.SEED)))):
        _, out, _ = c.tlc("MessageOwn", cfg % (s, kinds, d), tag=tag, args=args)
        for a, b in c.emit_cases(out, c.dir + "/" + tag).items():
            tot[a] = tot.get(a, 0) + b
        with open(p, "a") as f:
            f.write(open(c.dir + "/" + tag).read())
    if tot.get("M", 0) < 500 or tot.get("C", 0) < 50:
        raise vlib.CheckError("too few cases %s" % tot)
    exe = c.compile("p07", ["p07_message.cpp", vlib.REPO + "/src/communication/datatypes.cpp"])
    kv = c.replay_driver([exe, p], mpi=2, what="message replay", timeout=600)
    c.traces = tot["M"] + tot["C"]
    lines = open(p).readlines()
    c.samples = [lines[-1].strip()[:200], lines[-500].strip()[:200], lines[300].strip()[:200]]
    c.cov.update({"behaviours_replayed": tot, "comparisons": kv.get("comparisons", 0), "datatypes_created": kv.get("types_created", 0)})
    c.assumptions = ["the MPI library implements MPI_Pack and point-to-point transfers of committed datatypes correctly"]
