"""P02: spec/RangeCursor.tla replayed into IterableRange2D/IteratorRange2D."""
import vlib


def mod(origins):
    return {"RangeCursorRun": "---- MODULE RangeCursorRun ----\nEXTENDS RangeCursor\nXOrigins == %s\n====\n" % origins}


def run(c):
    T = vlib.THOROUGH
    exe = c.compile("p02", ["p02_range.cpp"])
    cfg = "CONSTANTS\n Origins <- XOrigins\n MaxR = %d\n MaxC = %d\n Depth = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS NoRepeat InRange ColumnMajor Emit\n"
    cases = c.dir + "/cases.txt"
    tot = {}
    with open(cases, "w") as f:
        for tag, org, r, q, d, args in (
                ("lists", "{<<0, 0>>, <<1, 0>>, <<3, 5>>, <<-3, 2>>}", 6, 6, 0, ()),
                ("moves", "{<<0, 0>>, <<3, 5>>}", 3, 3, 3 if T else 2, ()),
                ("random", "{<<0, 0>>, <<2, 1>>}", 5, 5, 12, ("-simulate", "num=%d" % (4000 if T else 600), "-depth", "14", "-seed", str(vlib.SEED)))):
            _, out, _ = c.tlc("RangeCursorRun", cfg % (r, q, d), extra_tla=mod(org), tag=tag, args=args)
            p = c.dir + "/" + tag
            for k, n in c.emit_cases(out, p).items():
                tot[k] = tot.get(k, 0) + n
            f.write(open(p).read())
    if tot.get("L", 0) < 50 or tot.get("H", 0) < 500:
        raise vlib.CheckError("too few cases %s" % tot)
    kv = c.replay_driver([exe, cases], what="range replay")
    c.traces = kv.get("cases", 0)
    lines = open(cases).readlines()
    c.samples = [l.strip()[:200] for l in (lines[10], lines[-1], lines[len(lines) // 2])]
    c.cov.update({"behaviours_replayed": tot, "comparisons": kv.get("comparisons", 0)})
    c.assumptions = ["extents beyond the enumerated ones follow the column-major law that TLC checks on the enumerated ranges"]
