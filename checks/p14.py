"""P14: behaviours of spec/TileAccess.tla (tiles of one matrix) replayed into Matrix on the deterministic runtime."""
import vlib
from concurrent.futures import ThreadPoolExecutor

CORE = ["matrix/distribution.cpp", "matrix/tile.cpp", "matrix.cpp", "matrix/matrix_ref.cpp", "memory/memory_view.cpp",
        "memory/memory_chunk.cpp", "tune.cpp", "communication/communicator.cpp", "communication/communicator_impl.cpp",
        "communication/communicator_grid.cpp", "communication/datatypes.cpp"]
CFG = "CONSTANTS\n LR = %d\n LC = %d\n TR = %d\n TC = %d\n Depth = %d\n EmitDepth = %d\n MaxMat = %d\n MaxAcc = %d\n MaxPart = %d\n Refs <- RefsC\n Factors <- FactorsC\n Ops = %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS WritersAlone SeesLast NoIdleWait Partition AllServed%s\n"
RUN = "---- MODULE TileRun ----\nEXTENDS TileAccess\nRefsC == %s\nFactorsC == %s\n====\n"


def replay(c, jobs, deep):
    """jobs: (name, shape, depth, max matrices, max accesses, max parts, refs, factors, ops, simulate, steps, storms)"""
    def tlc(ex, name, shape, depth, mm, ma, mp, refs, fac, ops, sim, emit, workers=1):
        n = depth if emit else 99
        r = "<<" + ", ".join("<<%d, %d, %d, %d>>" % q for q in refs) + ">>"
        f = "{" + ", ".join("<<%d, %d>>" % q for q in fac) + "}"
        args = ("-simulate", "num=%d" % sim, "-depth", str(depth + 2), "-seed", str(vlib.SEED + len(name))) if sim else ()
        cfg = CFG % (*shape, depth, n, mm, ma, mp, "{" + ", ".join('"%s"' % o for o in ops) + "}", " Emit" if emit else "")
        return ex.submit(c.tlc, "TileRun", cfg, None, {"TileRun": RUN % (r, f)}, workers, 1500, args, tag="Tile-" + name)
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(c.compile_sim, "tile-driver", ["p14_tiles.cpp"], CORE, types="dz")
        dfs = [tlc(ex, *d, 0, False, 4) for d in deep]
        fs = [tlc(ex, *j[:9], j[9], True) for j in jobs]
        exe = fexe.result()
        rs = []
        for j, f in zip(jobs, fs):
            o = f.result()[1]
            p = c.dir + "/" + j[0]
            k = c.emit_cases(o, p).get("T", 0)
            if k < 50:
                raise vlib.CheckError("too few behaviours for %s: %d" % (j[0], k))
            c.traces += k
            c.samples.append(open(p).readlines()[-2].strip()[:300])
            cmd = [exe, p] + [str(x) for x in j[1]] + [str(vlib.SEED * 100003), str(j[10]), str(j[11])] + [str(x) for q in j[6] for x in q]
            rs.append((j[0], k, ex.submit(c.replay_driver, cmd, what="behaviours " + j[0], timeout=1200)))
        for f in dfs:
            f.result()
        for t, k, r in rs:
            kv = r.result()
            c.cov[t] = dict(behaviours=k, runs=kv.get("runs", 0), tasks=kv.get("tasks", 0), comparisons=kv.get("comparisons", 0))
    c.assumptions = ["shim/pika/async_rw_mutex.hpp and the senders of shim/pika/execution.hpp have the semantics pika documents"]


def run(c):
    T = vlib.THOROUGH
    S = 20 if T else 1
    ops = ["access", "lazy", "done", "wait", "moves"]
    replay(c, [
        ("programs", (3, 1, 2, 1), 5 if T else 4, 1, 4, 5, [], [], ["access", "lazy"], 0, 1, 2),
        ("copies", (1, 1, 2, 2), 5 if T else 4, 1, 3, 5, [], [], ["access", "split"], 0, 1, 1),
        ("long", (3, 3, 2, 2), 14, 1, 12, 14, [], [], ops, 600 * S, 2, 4),
        ("longer", (4, 2, 2, 2), 30, 1, 20, 24, [], [], ops, 250 * S, 2, 6),
        ("queue", (2, 2, 2, 3), 16, 1, 14, 16, [], [], ["access", "lazy", "split", "wait"], 200 * S, 2, 6),
    ], [("deep", (2, 1, 1, 1), 6 if T else 5, 1, 5, 5, [], [], ["access", "lazy"])])
