"""P19: histories of spec/Panels.tla replayed into the four kinds of panels on the deterministic runtime."""
import vlib
from concurrent.futures import ThreadPoolExecutor
from p14 import CORE

CFG = "CONSTANTS\n Confs <- ConfsC\n W = %d\n Depth = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Covers Consistent Emit\n"
RUN = """---- MODULE PanelRun ----
EXTENDS Panels
ConfsC == {c \\in (%s) \\X (%s) \\X (%s) \\X (0..%d) \\X (0..%d) \\X (0..%d) \\X (%s) :
             c[4] < c[3] /\\ c[5] < c[3] /\\ (c[6] < (c[1] + c[7] + c[2] - 1) \\div c[2] \\/ c[6] = 0) /\\ c[7] < c[2] /\\ (c[7] > 0 => c[6] = 0)%s}
====
"""


def run(c):
    T = vlib.THOROUGH
    S = 15 if T else 1
    jobs = [("exhaustive", "{3}", "{2}", "{2}", 1, 1, 0, "{0}", " /\\ c[4] = 0 /\\ c[5] = 0", 1, 4 if T else 3, 0),
            ("histories", "{1, 4, 5, 7, 9}", "1..3", "1..3", 2, 2, 3, "{0}", "", 3, 9, 900),
            ("offset", "1..7", "2..4", "1..3", 2, 2, 0, "1..3", "", 2, 8, 500),
            ("long", "{5, 6, 8, 11}", "2..4", "1..2", 1, 1, 2, "{0}", "", 4, 24, 250)]
    with ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(c.compile_sim, "panel-driver", ["p19_panel.cpp"], CORE, types="d")
        fs = []
        for i, (t, n, b, p, r, s, bias, off, extra, w, d, num) in enumerate(jobs):
            args = ("-simulate", "num=%d" % (num * S), "-depth", str(d + 2), "-seed", str(vlib.SEED + i)) if num else ()
            fs.append(ex.submit(c.tlc, "PanelRun", CFG % (w, d), None, {"PanelRun": RUN % (n, b, p, r, s, bias, off, extra)}, 1, 1500, args, tag="Panel-" + t))
        exe = fexe.result()
        rs = []
        for i, (j, f) in enumerate(zip(jobs, fs)):
            o = f.result()[1]
            q = c.dir + "/" + j[0]
            k = c.emit_cases(o, q).get("P", 0)
            if k < 50:
                raise vlib.CheckError("too few histories for %s: %d" % (j[0], k))
            c.traces += k
            c.samples.append(open(q).readlines()[-2].strip()[:300])
            rs.append((j[0], k, ex.submit(c.replay_driver, [exe, q, str(vlib.SEED * 10007 + i)], what="histories " + j[0], timeout=900)))
        for t, k, r in rs:
            kv = r.result()
            c.cov[t] = dict(histories=k, comparisons=kv.get("comparisons", 0), probes=kv.get("probes", 0))
    c.assumptions = ["pika is represented by the stand-in of shim/", "operations on panels whose preconditions are documented are refused in builds with assertions"]
