"""P05 block-cyclic ownership: spec/BlockCyclic.tla states replayed into the real index functions."""
import random
import vlib


def mod(extra):
    return {"BlockCyclicRun": "---- MODULE BlockCyclicRun ----\nEXTENDS BlockCyclicMC\nXExtra == %s\n====\n" % extra}


def run(c):
    T = vlib.THOROUGH
    rng = random.Random(vlib.SEED)
    exe = c.compile("p05", ["p05_blockcyclic.cpp"])
    # random larger configurations, the tile part and the element part
    extra = []
    for _ in range(40 if T else 10):
        g = rng.choice([rng.randint(6, 20), rng.randint(20, 130)])
        b = rng.randint(1, 12)
        extra.append("<<1, %d, %d, %d, %d, 0>>" % (b, g, rng.randrange(g), rng.randrange(b)))
    for _ in range(30 if T else 8):
        t = rng.randint(8, 400)
        extra.append("<<%d, 1, 1, 0, 0, %d>>" % (t, rng.randrange(t)))
    ts, tpb, gs, per = (8, 6, 7, 3) if T else (6, 4, 5, 3)
    head = "CONSTANTS\n Track = %s\n TS = %d\n TPB = %d\n GS = %d\n Periods = %d\n Extra <- XExtra\n Configs <- MCConfigs\n MaxElement <- MCMax\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    # 1. the invariants of the specification on the small domain
    c.tlc("BlockCyclicRun", head % ("TRUE", min(ts, 5), min(tpb, 4), min(gs, 5), 2) +
          "INVARIANTS Partition LocalOrder Balanced InTile\n", workers=vlib.NCPU, tag="BlockCyclic-inv", timeout=800,
          extra_tla=mod("{}"))
    # 2. the lifting laws
    for K in ((2, 3, 5) if T else (2, 3)):
        c.tlc("BlockCyclicScale", "CONSTANTS\n TPB = %d\n GS = %d\n K = %d\n MaxTile = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Periodic Homogeneous HomogeneousInside\n"
              % (4, 5 if T else 4, K, 60 if T else 40), workers=vlib.NCPU, tag="Scale%d" % K)
    # 3. all states of the deal, replayed
    _, out, st = c.tlc("BlockCyclicRun", head % ("FALSE", ts, tpb, gs, per) +
                       "INVARIANTS InTile Emit\n", tag="BlockCyclic-emit", timeout=800,
                       extra_tla=mod("{" + ", ".join(sorted(set(extra))) + "}"))
    cases = c.dir + "/cases.txt"
    kinds = c.emit_cases(out, cases)
    if kinds.get("E", 0) < 100 or kinds.get("T", 0) < 100:
        raise vlib.CheckError("too few states emitted: %s" % kinds)
    kv = c.replay_driver([exe, cases], what="replay of the deal")
    c.traces = kv.get("cases", 0)
    c.samples = [l.strip() for l in open(cases).readlines()[:6]]
    c.cov.update({"states_replayed": kinds, "comparisons": kv.get("comparisons", 0),
                  "misuse_probes": kv.get("misuse_probes", 0), "exhaustive": False,
                  "random_configs": len(set(extra))})
    c.assumptions = ["indices above the enumerated domain are reached through the periodicity and homogeneity laws "
                     "checked by TLC on BlockCyclicScale (K up to 5)"]
