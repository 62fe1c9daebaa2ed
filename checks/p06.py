"""P06: spec/Layouts.tla replayed into the buffer descriptions and copy."""
import vlib


def cases(c, n, s, g, mx, name="cases", extra=()):
    cfg = "CONSTANTS\n MaxN = %d\n MaxS = %d\n Gap = %d\n MaxCount = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS InSpan Injective Closed ScaleLaw Emit\n" % (n, s, g, mx)
    _, out, _ = c.tlc("Layouts", cfg, tag="Layouts-" + name)
    p = c.dir + "/" + name
    k = c.emit_cases(out, p)
    return p, k


def run(c):
    T = vlib.THOROUGH
    p, k = cases(c, *((6, 5, 3, 12) if T else (5, 4, 3, 12)))
    if min(k.get(x, 0) for x in "YCX") < 30:
        raise vlib.CheckError("too few cases %s" % k)
    exe = c.compile("p06", ["p06_copy.cpp"])
    kv = c.replay_driver([exe, p], what="copy replay")
    san = c.compile("p06san", ["p06_copy.cpp"], flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=all"], libs=["-fsanitize=address,undefined"])
    kv2 = c.replay_driver([san, p, "sanitised"], what="copy replay (address sanitizer)", env={"ASAN_OPTIONS": "detect_leaks=0"}, timeout=800)
    c.traces = kv.get("cases", 0) + kv2.get("cases", 0)
    c.samples = [l.strip()[:200] for l in open(p).readlines()[100:2000:700]]
    c.cov.update({"behaviours_replayed": k, "comparisons": kv.get("comparisons", 0), "death_probes": kv.get("death_probes", 0),
                  "sparse_mapping": "skipped" if kv.get("no_sparse_map") else "used"})
    c.assumptions = ["source and destination do not overlap"]
