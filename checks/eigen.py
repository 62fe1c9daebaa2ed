"""Shared by P32 and P33: behaviours of spec/EigenProblems.tla replayed into the eigensolver and its stages."""
import os, vlib, algebra
from concurrent.futures import ThreadPoolExecutor

CFG = "CONSTANTS\n Seeds <- SeedsC\n NMax = %d\n Grids <- GridsC\n Modes <- ModesC\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Unitary Decomposes Ascending Characteristic Emit\n"
RUN = "---- MODULE EigRun ----\nEXTENDS EigenProblems\nSeedsC == %d..%d\nGridsC == <<%s>>\nModesC == <<%s>>\n====\n"
E, Z = "eigensolver::internal", ["double", "std::complex<double>"]
# (the slowest to compile first)
UNITS = [("tridiag", "eigensolver/tridiag_solver/impl.h", E, "DLAF_TRIDIAGONAL_EIGENSOLVER_ETI", Z[:1]),
         ("b2t", "eigensolver/band_to_tridiag/mc.h", E, "DLAF_EIGENSOLVER_B2T_ETI", Z),
         ("r2b", "eigensolver/reduction_to_band/impl.h", E, "DLAF_EIGENSOLVER_REDUCTION_TO_BAND_ETI", Z),
         ("btb2t", "eigensolver/bt_band_to_tridiag/impl.h", E, "DLAF_EIGENSOLVER_BT_BAND_TO_TRIDIAGONAL_ETI", Z),
         ("btr2b", "eigensolver/bt_reduction_to_band/impl.h", E, "DLAF_EIGENSOLVER_BT_REDUCTION_TO_BAND_ETI", Z),
         ("eig", "eigensolver/eigensolver/impl.h", E, "DLAF_EIGENSOLVER_ETI", Z),
         ("gen", "eigensolver/gen_eigensolver/impl.h", E, "DLAF_EIGENSOLVER_GEN_ETI", Z),
         ("gen2std", "eigensolver/gen_to_std/impl.h", E, "DLAF_GENTOSTD_ETI", Z),
         ("chol", "factorization/cholesky/impl.h", "factorization::internal", "DLAF_FACTORIZATION_CHOLESKY_ETI", Z),
         ("tfac", "factorization/qr/t_factor_impl.h", "factorization::internal", "DLAF_FACTORIZATION_QR_TFACTOR_ETI", Z),
         ("trsm", "solver/triangular/impl.h", "solver::internal", "DLAF_SOLVER_TRIANGULAR_ETI", Z),
         ("gemm", "multiplication/general/impl.h", "multiplication::internal", "DLAF_MULTIPLICATION_GENERAL_ETI", Z[:1]),
         ("perm", "permutations/general/impl.h", "permutations::internal", "DLAF_PERMUTATIONS_GENERAL_ETI", Z[:1])]
SIM = vlib.Check.CORE + vlib.Check.KERNELS


def build(c, driver="eig.cpp", units=None, name="eig"):
    srcs = [driver] + [algebra.instantiate(c, n, h, ns, m, types) for n, h, ns, m, types in UNITS if units is None or n in units]
    return c.compile_sim(name, srcs, SIM)


def replay(c, plan, schedules, grids=algebra.GRIDS, mode=()):
    """`plan`: list of (modes, seeds, largest order)."""
    T = vlib.THOROUGH
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(build, c)
        fs = []
        for i, (modes, n, nmax) in enumerate(plan):
            n *= 12 if T else 1
            lo = 1 + (vlib.SEED * 15013 + (7001 if mode else 0) + i * 1709) % 36000
            fs.append((i, n, ex.submit(c.tlc, "EigRun", CFG % (nmax + (8 if T else 0)), None,
                                       {"EigRun": RUN % (lo, lo + n - 1, grids, ", ".join(map(str, modes)))}, 1, 3000, tag="EigenProblems-%d" % i)))
        exe = fexe.result()
        rs = []
        for i, n, fu in fs:
            p = os.path.join(c.dir, "beh%d" % i)
            k = c.emit_cases(fu.result()[1], p).get("E", 0)
            if k < n:
                raise vlib.CheckError("too few behaviours: %d of %d" % (k, n))
            c.traces += k
            if len(c.samples) < 4:
                c.samples.append(open(p).readlines()[-1].strip()[:300])
            rs.append((i, k, ex.submit(c.replay_driver, [exe, p, str(vlib.SEED), str(schedules * (4 if T else 1)), *mode], what="behaviours %d" % i, timeout=3000)))
        for i, k, r in rs:
            kv = r.result()
            c.cov["behaviours %d" % i] = dict(behaviours=k, runs=kv.get("runs", 0), comparisons=kv.get("comparisons", 0), tasks=kv.get("tasks", 0), messages=kv.get("messages", 0))
    c.assumptions = ["pika, MPI and Umpire are represented by the stand-ins of shim/; blaspp, lapackpp and OpenBLAS are the installed ones",
                     "the matrices of one call share their source rank, as the algorithms assume; tiles have at least two rows",
                     "results are compared with the exact ones up to 1e-11 relative to the largest entry"]
