"""Shared by P23-P27: behaviours of spec/ExactAlgebra.tla replayed into the library's algorithms."""
import os, vlib
from concurrent.futures import ThreadPoolExecutor

CFG = "CONSTANTS\n Seeds <- SeedsC\n Table <- TableC\n FirstCall = %d\n Depth = %d\n NMax = %d\n Grids <- GridsC\n KBs <- KBsC\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Exact Emit\n"
RUN = "---- MODULE AlgebraRun ----\nEXTENDS ExactAlgebra\nSeedsC == %d..%d\nTableC == <<%s>>\nGridsC == <<%s>>\nKBsC == <<%s>>\n====\n"
# code: (header, namespace, ETI macro, backend arguments)
ETI = {1: ("factorization/cholesky/impl.h", "factorization::internal", "DLAF_FACTORIZATION_CHOLESKY_ETI"),
       2: ("solver/triangular/impl.h", "solver::internal", "DLAF_SOLVER_TRIANGULAR_ETI"),
       3: ("multiplication/triangular/impl.h", "multiplication::internal", "DLAF_MULTIPLICATION_TRIANGULAR_ETI"),
       4: ("multiplication/general/impl.h", "multiplication::internal", "DLAF_MULTIPLICATION_GENERAL_ETI"),
       5: ("multiplication/hermitian/impl.h", "multiplication::internal", "DLAF_MULTIPLICATION_HERMITIAN_ETI"),
       6: ("inverse/triangular/impl.h", "inverse::internal", "DLAF_INVERSE_TRIANGULAR_ETI"),
       7: ("inverse/cholesky/impl.h", "inverse::internal", "DLAF_INVERSE_CHOLESKY_ETI"),
       8: ("eigensolver/gen_to_std/impl.h", "eigensolver::internal", "DLAF_GENTOSTD_ETI")}
SIM = vlib.Check.CORE + vlib.Check.KERNELS
GRIDS = "<<0, 0>>, <<1, 1>>, <<2, 2>>, <<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 2>>, <<1, 2>>, <<2, 1>>"


def instantiate(c, name, header, ns, macro, types, backend="Backend::MC, Device::CPU, "):
    """A translation unit which instantiates a family of algorithms for the given element types."""
    p = os.path.join(c.dir, "eti_%s.cpp" % name)
    with open(p, "w") as fh:
        fh.write("#include <dlaf/%s>\nnamespace dlaf::%s {\n%s\n}\n" % (header, ns, "\n".join("%s(, %s%s)" % (macro, backend, t) for t in types)))
    return p


def replay(c, first, table, n=60, depth=4, nmax=9, jobs=6, schedules=8, extra=()):
    """`first`: codes the behaviours start with; `table`: codes of the following calls;
    `extra`: further jobs (code, table, tiles per block) on local matrices."""
    T = vlib.THOROUGH
    codes = sorted(set(first) | set(table))
    # the general to standard reduction is built from other algorithms of the library
    need = set(codes) | ({2} if 8 in codes else set())
    srcs = ["alg.cpp"] + [instantiate(c, "call%d" % k, *ETI[k], ["double", "std::complex<double>"]) for k in sorted(need)]
    flags = ["-DCALLS=%d" % sum(1 << k for k in codes)]
    plan = [(first[i % len(first)], table, "1", False) for i in range(jobs)] + [e + (True,) for e in extra]
    per = n * (12 if T else 1)
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(c.compile_sim, "alg", srcs, SIM, flags)
        fs = []
        for i, (f, tb, kbs, local) in enumerate(plan):
            tag = str(i)
            lo = 1 + (vlib.SEED * 16127 + i * 701) % 39000
            fs.append(ex.submit(c.tlc, "AlgebraRun", CFG % (f, depth + (2 if T else 0), nmax + (2 if T else 0)), None,
                                {"AlgebraRun": RUN % (lo, lo + per - 1, ", ".join(map(str, tb)), "<<0, 0>>" if local else GRIDS, kbs)}, 1, 3000, tag="Algebra-" + tag))
        exe = fexe.result()
        rs = []
        for i, fu in enumerate(fs):
            tag = str(i)
            p = os.path.join(c.dir, "beh" + tag)
            k = c.emit_cases(fu.result()[1], p).get("E", 0)
            if k < per // 4:
                raise vlib.CheckError("too few behaviours: %d of %d" % (k, per))
            c.traces += k
            if len(c.samples) < 4:
                c.samples.append(open(p).readlines()[-1].strip()[:300])
            rs.append((tag, k, ex.submit(c.replay_driver, [exe, p, str(vlib.SEED), str(schedules * (4 if T else 1))], what="behaviours " + tag, timeout=3000)))
        for tag, k, r in rs:
            kv = r.result()
            c.cov["behaviours " + tag] = dict(behaviours=k, runs=kv.get("runs", 0), comparisons=kv.get("comparisons", 0), tasks=kv.get("tasks", 0), messages=kv.get("messages", 0))
    c.assumptions = ["pika, MPI and Umpire are represented by the stand-ins of shim/; blaspp, lapackpp and OpenBLAS are the installed ones",
                     "matrices of one call share their source rank, as the algorithms assume",
                     "entries are dyadic Gaussian numbers on which double precision is exact"]
