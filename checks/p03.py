"""P03: spec/WideInt.tla replayed into the checked conversions and checked sums/products."""
import vlib


def run(c):
    T = vlib.THOROUGH
    exe = c.compile("p03", ["p03_casts.cpp"])
    def cfg(powers, spread, pairs, pp, ps, inv):
        m = {"WideIntRun": "---- MODULE WideIntRun ----\nEXTENDS WideInt\nXP == %s\nXPP == %s\n====\n" % (powers, pp)}
        return "CONSTANTS\n Powers <- XP\n Spread = %d\n Pairs = %s\n PairPowers <- XPP\n PairSpread = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n" % (spread, pairs, ps, inv), m
    s = "{7, 8, 15, 16, 31, 32, 63, 64}"
    pp = "{4, 7, 8, 16, 31, 32, 33, 62, 63, 64}" if T else "{3, 8, 31, 32, 63}"
    cases = c.dir + "/cases.txt"
    tot = {}
    with open(cases, "w") as f:
        for tag, args in (("boundaries", (s, 12 if T else 5, "FALSE", "{}", 0, "TypeLattice Emit")),
                          ("powers", ("0..64", 1, "FALSE", "{}", 0, "TypeLattice Emit")),
                          ("pairs", (pp, 1, "TRUE", pp, 1, "Laws Emit"))):
            t, m = cfg(*args)
            _, out, _ = c.tlc("WideIntRun", t, extra_tla=m, tag=tag)
            for k, n in c.emit_cases(out, c.dir + "/" + tag).items():
                tot[k] = tot.get(k, 0) + n
            f.write(open(c.dir + "/" + tag).read())
    if tot.get("V", 0) < 300 or tot.get("P", 0) < 500:
        raise vlib.CheckError("too few cases %s" % tot)
    kv = c.replay_driver([exe, cases, "200" if T else "30"], what="conversion replay", timeout=800)
    c.traces = kv.get("cases", 0)
    c.samples = [l.strip()[:200] for l in open(cases).readlines()[3:800:300]]
    c.cov.update({"states_replayed": tot, "comparisons": kv.get("comparisons", 0), "death_probes": kv.get("death_probes", 0)})
    c.assumptions = ["values away from powers of two behave as the boundary values of the interval they lie in"]
