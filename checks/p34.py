"""P34: behaviours of spec/Deflation.tla and spec/RankOneMerge.tla replayed into the merge step of the tridiagonal
solver; the merge tree it uses is checked against spec/MergeTree.tla."""
import os, vlib, algebra, eigen
from concurrent.futures import ThreadPoolExecutor

DEFL = "CONSTANTS\n Seeds <- SeedsC\n NMax = %d\n Grids <- GridsC\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Index Length Ascending Halves OnlySmall Some AllSmall Orders Emit\nPROPERTIES Mean2\n"
ROM = "CONSTANTS\n Seeds <- SeedsC\n NMax = %d\n Grids <- GridsC\n Steps = 14\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Orthogonal Eigenpairs Independent Separated ZLength Emit\n"
RUN = "---- MODULE %s ----\nEXTENDS %s\nSeedsC == %d..%d\nGridsC == <<%s>>\n====\n"
TREE = "---- MODULE TreeRun ----\nEXTENDS MergeTree\nTracesC == <<%s>>\n====\n"


def run(c):
    T = vlib.THOROUGH
    c.bounds = "problems of up to %d elements in 2-6 tiles of 1-5, local and grids up to 2x3, inside larger ones" % (24 if T else 14)
    nd, nm = (16000, 1500) if T else (2400, 240)
    parts = 8 if T else 3
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(eigen.build, c, "merge.cpp", ("gemm", "perm"), "merge")
        fs = []
        for i in range(parts):
            lo = 1 + (vlib.SEED * 15013 + i * 4507) % 30000
            fs.append(("D%d" % i, nd // parts, ex.submit(c.tlc, "DeflRun%d" % i, DEFL % (20 if T else 14), None, {"DeflRun%d" % i: RUN % ("DeflRun%d" % i, "Deflation", lo, lo + nd // parts - 1, "<<1,1>>, <<1,2>>, <<2,2>>, <<2,3>>, <<1,3>>, <<3,1>>")}, 1, 3000, tag="Deflation-%d" % i)))
            fs.append(("M%d" % i, nm // parts, ex.submit(c.tlc, "RomRun%d" % i, ROM % (24 if T else 16), None, {"RomRun%d" % i: RUN % ("RomRun%d" % i, "RankOneMerge", lo, lo + nm // parts - 1, "<<0,0>>, <<1,2>>, <<2,2>>, <<2,3>>, <<0,0>>, <<3,1>>")}, 1, 3000, tag="RankOneMerge-%d" % i)))
        exe = fexe.result()
        # the merge trees of the code are behaviours of the specification
        size = 150 if T else 48
        rc, txt, _ = c.run([exe, "trees", str(size)])
        trees = [list(map(int, l.split()[1:])) for l in txt.splitlines() if l.startswith("TREE")]
        if rc or len(trees) != size + 1:
            c.violation("the merge tree could not be generated", dict(output=txt[-2000:]))
        tla = ", ".join("<<%d, <<%s>>>>" % (t[0], ", ".join("<<%d,%d,%d>>" % tuple(t[1 + 3 * k: 4 + 3 * k]) for k in range(len(t) // 3))) for t in trees)
        rc, out, st = c.tlc("TreeRun", "CONSTANT Traces <- TracesC\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Conforms Disjoint\n", None, {"TreeRun": TREE % tla}, 2, 600, tag="MergeTree", expect_ok=False)
        if rc not in (0, 12):
            raise vlib.CheckError("TLC reported an error on MergeTree (rc %d)" % rc)
        if rc:
            c.violation("a merge tree is not a behaviour of MergeTree.tla", dict(output=open(out).read()[-3000:]))
        c.cov["merge trees"] = dict(trees=len(trees), states=st.get("distinct", 0))
        rs = []
        for tag, n, fu in fs:
            p = os.path.join(c.dir, "beh" + tag)
            got = c.emit_cases(fu.result()[1], p)
            k = sum(got.values())
            if k < n // 3:
                raise vlib.CheckError("too few behaviours: %d of %d" % (k, n))
            c.traces += k
            if len(c.samples) < 4:
                c.samples.append(open(p).readlines()[-1].strip()[:300])
            rs.append((tag, k, ex.submit(c.replay_driver, [exe, p, str(vlib.SEED), str(20 if T else 6)], what="behaviours " + tag, timeout=3000)))
        for tag, k, r in rs:
            kv = r.result()
            c.cov["behaviours " + tag] = dict(behaviours=k, runs=kv.get("runs", 0), comparisons=kv.get("comparisons", 0), tasks=kv.get("tasks", 0), messages=kv.get("messages", 0))
    c.assumptions = ["pika, MPI and Umpire are represented by the stand-ins of shim/; blaspp, lapackpp and OpenBLAS are the installed ones",
                     "matrices and vectors of the solver are column major, as it allocates them"]
