"""P11 matrix distributions: tables dealt by spec/Distribution.tla replayed into Distribution on every rank."""
import vlib
from concurrent.futures import ThreadPoolExecutor
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
import distgen

HEAD = "CONSTANTS\n Pairs <- XPairs\n EmitDone = %s\nSPECIFICATION %s\nCHECK_DEADLOCK FALSE\n"


def run(c):
    T = vlib.THOROUGH
    ps = distgen.pairs(vlib.SEED, None if T else 1500, nrandom=2000 if T else 300)
    chunks = [ps[i::6] for i in range(6)]
    small = distgen.pairs(vlib.SEED + 1, 1500 if T else 300, 3, 2, 2)

    def mod(name, base, p, more=""):
        return {name: "---- MODULE %s ----\nEXTENDS %s\nXPairs == %s\n%s====\n" % (name, base, distgen.tla(p), more)}

    c.tlc("DistInv", HEAD % ("FALSE", "Spec") + "INVARIANTS Partition Whole LocalOrder Shape\n", workers=vlib.NCPU,
          extra_tla=mod("DistInv", "Distribution", ps if T else ps[::3]), timeout=1500)
    for K in (2, 3):
        c.tlc("DistLaw", "CONSTANTS\n Pairs <- XPairs\n EmitDone = FALSE\n K = %d\n Regions <- XReg\nSPECIFICATION LawSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS CycleNeutral Scaling\n" % K,
              workers=vlib.NCPU, tag="DistLaw%d" % K, timeout=1500,
              extra_tla=mod("DistLaw", "DistributionLaws", small, "XReg(p) == {}\n"))

    with ThreadPoolExecutor(7) as ex:
        fexe = ex.submit(c.compile_sim, "p11", ["p11_distribution.cpp"], ["matrix/distribution.cpp"])
        fs = [ex.submit(c.tlc, "DistEmit", HEAD % ("TRUE", "Spec") + "INVARIANT Emit\n", None,
                        mod("DistEmit", "Distribution", ch), 1, 1500, tag="DistEmit%d" % i) for i, ch in enumerate(chunks)]
        exe = fexe.result()
        outs = [f.result()[1] for f in fs]
    n = 0
    files = []
    for i, o in enumerate(outs):
        f = c.dir + "/cases%d.txt" % i
        n += c.emit_cases(o, f).get("D", 0)
        files.append(f)
    if n != len(ps):
        raise vlib.CheckError("expected %d tables, got %d" % (len(ps), n))
    with ThreadPoolExecutor(6) as ex:
        kvs = list(ex.map(lambda f: c.replay_driver([exe, f], what="replay of the dealt tables"), files))
    c.traces = n
    c.samples = [l.strip()[:300] for l in open(files[0]).readlines()[:3]]
    c.cov.update({"tables": n, "rank_tables": sum(k.get("cases", 0) for k in kvs), "comparisons": sum(k.get("comparisons", 0) for k in kvs),
                  "misuse_probes": sum(k.get("misuse_probes", 0) for k in kvs), "exhaustive": False})
    c.assumptions = ["larger offsets and lengths are reached through the cycle and scaling laws TLC checks on the model"]
