"""P22: the placements of spec/Allocation.tla replayed into matrices the library allocates or is given storage for."""
import vlib
from concurrent.futures import ThreadPoolExecutor

CFG = "CONSTANTS\n RowSizes = %s\n ColSizes = %s\n Shapes <- ShapesC\n MaxP = %d\n Pads = %s\n Thin = %d\n Offsets = %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS NoOverlap Cover Emit\n"
RUN = "---- MODULE AllocRun ----\nEXTENDS Allocation\nShapesC == {%s}\n====\n"


def run(c):
    T = vlib.THOROUGH
    A = "<<1, 1>>, <<2, 1>>, <<3, 1>>, <<1, 2>>, <<2, 2>>, <<1, 3>>, <<3, 2>>, <<2, 3>>"
    jobs = [("small", "{0, 1, 2, 3, 5, 6}", "{0, 1, 2, 4, 7}", A, 2, "{0, 2}", 41 if T else 419, "{0}"),
            ("offset", "{0, 1, 2, 4, 5, 7}", "{1, 3, 4, 6, 8}", A, 2, "{0, 1}", 97 if T else 1951, "{0, 1, 2, 3, 5}"),
            ("large", "{9, 10, 13, 17}", "{8, 11, 12, 15}", A + ", <<4, 1>>, <<5, 1>>, <<4, 2>>, <<5, 2>>, <<3, 4>>", 3, "{0, 5}", 509 if T else 4507, "{0}")]
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(c.compile_sim, "p22", ["p22_alloc.cpp"], ["matrix/distribution.cpp", "matrix/tile.cpp", "matrix.cpp", "matrix/matrix_ref.cpp", "memory/memory_view.cpp", "memory/memory_chunk.cpp", "tune.cpp", "communication/communicator.cpp", "communication/communicator_impl.cpp", "communication/communicator_grid.cpp", "communication/datatypes.cpp"], types="sd")
        fs = [ex.submit(c.tlc, "AllocRun", CFG % (rs, cs, p, pads, thin, offs), None, {"AllocRun": RUN % sh}, 1, 1500, tag="Alloc-" + t) for t, rs, cs, sh, p, pads, thin, offs in jobs]
        exe = fexe.result()
        rs = []
        for j, f in zip(jobs, fs):
            o = f.result()[1]
            p = c.dir + "/" + j[0]
            k = c.emit_cases(o, p).get("A", 0)
            if k < 100:
                raise vlib.CheckError("too few placements for %s: %d" % (j[0], k))
            c.traces += k
            c.samples.append(open(p).readlines()[-2].strip()[:200])
            rs.append((j[0], k, ex.submit(c.replay_driver, [exe, p], what=j[0], timeout=900)))
        for t, k, r in rs:
            c.cov[t] = dict(placements=k, comparisons=r.result().get("comparisons", 0))
    c.assumptions = ["the allocator underneath is the stand-in of shim/, which fences every allocation and checks it when it is given back"]
