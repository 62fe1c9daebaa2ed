"""P12 sub-distributions: regions clipped by spec/SubDistribution.tla replayed into Distribution on every rank."""
import vlib
from concurrent.futures import ThreadPoolExecutor
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
import distgen

HEAD = "CONSTANTS\n Pairs <- XPairs\n Regions <- XReg\n EmitDone = %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n"
REG = """
RegSeq(n) == SetToSeq({<<o, l>> \\in (0..n) \\X (0..n) : o + l <= n})
\\* every region of each dimension once (thinned to at most %d), paired with a region of the other dimension
XReg(p) ==
  LET A == RegSeq(p[1][1])
      B == RegSeq(p[2][1])
      m == IF Len(A) > Len(B) THEN Len(A) ELSE Len(B)
      st == IF m <= %d THEN 1 ELSE (m \\div %d) + 1
      k0 == (p[1][1] * 7 + p[2][6] + %d) %% st
  IN {<<A[1 + ((i * st + k0) %% Len(A))], B[1 + ((i * st + k0 + p[1][6]) %% Len(B))]>> : i \\in 0..(m \\div st)}
"""


def run(c):
    T = vlib.THOROUGH
    ps = distgen.pairs(vlib.SEED + 2, None if T else 700, nrandom=1500 if T else 200)
    per = 60 if T else 14
    small = [p for p in distgen.pairs(vlib.SEED + 3, 3000, 3, 3, 2) if p[0][0] <= 9 and p[1][0] <= 9][:400 if T else 60]

    def mod(name, p, k):
        return {name: "---- MODULE %s ----\nEXTENDS SubDistribution\nXPairs == %s\n%s====\n" %
                (name, distgen.tla(p), REG % (k, k, k, vlib.SEED))}
    jobs = [(ps[i::6], per) for i in range(6)] + [(small, 1000)]
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(c.compile_sim, "p12", ["p11_distribution.cpp"], ["matrix/distribution.cpp"])
        fs = [ex.submit(c.tlc, "SubEmit", HEAD % ("TRUE", "ClipIsDeal EmitSub"), None, mod("SubEmit", ch, k), 1, 1500,
                        tag="SubEmit%d" % i) for i, (ch, k) in enumerate(jobs)]
        exe = fexe.result()
        outs = [f.result()[1] for f in fs]
    n, files = 0, []
    for i, o in enumerate(outs):
        f = c.dir + "/cases%d.txt" % i
        n += c.emit_cases(o, f).get("S", 0)
        files.append(f)
    if n < len(ps):
        raise vlib.CheckError("only %d regions" % n)
    with ThreadPoolExecutor(7) as ex:
        kvs = list(ex.map(lambda f: c.replay_driver([exe, f], what="replay of the clipped tables"), files))
    c.traces = n
    c.samples = [l.strip()[:300] for l in open(files[0]).readlines()[:3]]
    c.cov.update({"parents": len(ps) + len(small), "regions": n, "rank_tables": sum(k.get("cases", 0) for k in kvs),
                  "comparisons": sum(k.get("comparisons", 0) for k in kvs), "exhaustive": False})
    c.assumptions = ["regions of larger parents are reached through the scaled tables (2^40+7 elements per unit)"]
