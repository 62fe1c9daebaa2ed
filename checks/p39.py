import json, os, subprocess, algebra, vlib
from concurrent.futures import ThreadPoolExecutor

CFG = "CONSTANTS\n Seeds <- SeedsC\n Grids <- GridsC\n Depth = %d\n NMax = %d\n Square = %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Once Inside Faithful Emit\nPROPERTY Stays\n"
RUN = "---- MODULE IoRun ----\nEXTENDS MatrixIO\nSeedsC == %d..%d\nGridsC == <<<<1, 1>>, <<2, 2>>, <<1, 3>>, <<3, 2>>, <<2, 1>>>>\n====\n"
FLAGS = ["-DDLAF_WITH_HDF5", "-I" + vlib.VERIF + "/shim/hdf5"]
UNITS = [("chol", "factorization/cholesky/impl.h", "factorization::internal", "DLAF_FACTORIZATION_CHOLESKY_ETI"),
         ("invc", "inverse/cholesky/impl.h", "inverse::internal", "DLAF_INVERSE_CHOLESKY_ETI"),
         ("invt", "inverse/triangular/impl.h", "inverse::internal", "DLAF_INVERSE_TRIANGULAR_ETI")]


def run(c):
    c.bounds = "matrices up to 7x7 (10x10), tiles up to 4, blocks of up to 3 tiles, offsets, grids up to 3x2; 8 (12) calls"
    T = vlib.THOROUGH
    jobs, per = 6, (1500 if T else 150)
    srcs = ["p39_io.cpp"] + [algebra.instantiate(c, n, h, ns, m, ["double", "std::complex<double>"]) for n, h, ns, m in UNITS]
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(c.compile_sim, "io", srcs, algebra.SIM + ["matrix/hdf5.cpp"], FLAGS, types="sdcz")
        fs = []
        for i in range(jobs):
            lo = 1 + (vlib.SEED * 16127 + i * 5701) % 37000
            fs.append(ex.submit(c.tlc, "IoRun", CFG % (12 if T else 8, 10 if T else 7, "TRUE" if i == 5 else "FALSE"), None,
                                {"IoRun": RUN % (lo, lo + per - 1)}, 1, 3000, tag="MatrixIO-%d" % i))
        exe = fexe.result()
        rs = []
        for i, fu in enumerate(fs):
            p = os.path.join(c.dir, "beh%d" % i)
            k = c.emit_cases(fu.result()[1], p).get("I", 0)
            if k < per:
                raise vlib.CheckError("too few behaviours: %d of %d" % (k, per))
            c.traces += k
            c.samples.append(open(p).readlines()[-1].strip()[:300]) if len(c.samples) < 4 else None
            rs.append((i, k, ex.submit(c.replay_driver, [exe, p, str(vlib.SEED), str(10 if T else 3), p + ".txt"], what="behaviours %d" % i, timeout=3000)))
        for i, k, r in rs:
            kv = r.result()
            c.cov["behaviours %d" % i] = dict(behaviours=k, runs=kv.get("runs", 0), comparisons=kv.get("comparisons", 0))
    # the printed texts: what numpy makes of them, and the numbers of the csv lines
    n = 0
    for i in range(jobs):
        f = os.path.join(c.dir, "beh%d.txt" % i)
        out = subprocess.run(["python3-vt", os.path.join(vlib.VERIF, "harness", "texts.py"), f], capture_output=True, text=True)
        if out.returncode not in (0, 1) or "DONE" not in out.stdout:
            raise vlib.CheckError("texts.py failed: " + out.stdout[-500:] + out.stderr[-2000:])
        n += int(out.stdout.split("texts=")[1].split()[0])
        bad = [l for l in out.stdout.splitlines() if l.startswith("MISMATCH")]
        if bad:
            c.violation("printed matrices %d" % i, {"text": bad[:20], "file": f})
            break
    c.cov["printed texts"] = n
    c.assumptions = ["HDF5 is represented by shim/hdf5 (files in memory, selections checked as HDF5 does); numpy evaluates the printed texts",
                     "pika, MPI and Umpire are represented by the stand-ins of shim/"]
