"""P04: spec/Splits.tla, spec/Dealer.tla, spec/RoundRobin.tla replayed into the work-splitting helpers."""
import random
import vlib


def run(c):
    T = vlib.THOROUGH
    exe = c.compile("p04", ["p04_splits.cpp"])
    rng = random.Random(vlib.SEED)
    ex = set()
    for _ in range(300 if T else 40):
        b = rng.randint(1, 40)
        ex.add("<<%d, %d, %d, %d>>" % (rng.randint(1, 150), b, rng.randint(0, b), rng.randint(0, b)))
    cases = c.dir + "/cases.txt"
    tot = {}
    with open(cases, "w") as f:
        for tag, module, consts, inv, m in (
                ("splits", "SplitsRun", "MaxL = %d\n MaxB = %d\n K = 3\n Extra <- XExtra" % ((26, 11) if T else (14, 7)), "Increasing Exact Scales Fine Emit",
                 {"SplitsRun": "---- MODULE SplitsRun ----\nEXTENDS Splits\nXExtra == {%s}\n====\n" % ", ".join(sorted(ex))}),
                ("dealer", "Dealer", "MaxA = %d\n MaxD = %d\n MaxS = %d" % ((100, 24, 60) if T else (40, 12, 25)), "Tight Share Emit", None),
                ("ring", "RoundRobin", "MaxN = %d\n Depth = %d" % ((5, 8) if T else (4, 6)), "Fair Emit", None)):
            _, out, _ = c.tlc(module, "CONSTANTS\n %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n" % (consts, inv), extra_tla=m, tag=tag)
            for k, n in c.emit_cases(out, c.dir + "/" + tag).items():
                tot[k] = tot.get(k, 0) + n
            f.write(open(c.dir + "/" + tag).read())
    if min(tot.get(k, 0) for k in "IDPR") < 100:
        raise vlib.CheckError("too few cases %s" % tot)
    kv = c.replay_driver([exe, cases], what="splitting replay")
    c.traces = kv.get("cases", 0)
    lines = open(cases).readlines()
    c.samples = [l.strip()[:200] for l in (lines[7], lines[len(lines) // 3], lines[-1])]
    c.cov.update({"behaviours_replayed": tot, "comparisons": kv.get("comparisons", 0)})
    c.assumptions = ["larger intervals are reached through the scaling law that TLC checks (Scales) and through adding whole boxes"]
