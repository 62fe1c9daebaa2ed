import eigen, vlib
from concurrent.futures import ThreadPoolExecutor

CFG = """CONSTANTS Procs = %d
 Tiles = %d
 Workers = %d
 Source = %d
 Trigger = %s
SPECIFICATION Spec
INVARIANTS WithinWorkers %s
PROPERTY Terminates
"""


def run(c):
    c.bounds = "matrices up to 24x24, tile sizes 1-8, local and grids up to 2x3; model: up to 4 processes of a column, 6 rows of tiles, 1 or 2 workers"
    T = vlib.THOROUGH
    jobs = [(p, n, w, s, True) for p, n, w, s in ((1, 4, 1, 0), (2, 5, 1, 1), (3, 5, 1, 1), (3, 4, 2, 2), (4, 4, 1, 3))]
    if T:
        jobs += [(p, n, w, s, True) for p in (2, 3, 4, 5) for n in (6, 7, 8) for w in (1, 2, 3) for s in (0, p - 1)]
    jobs += [(2, 4, 1, 0, False), (3, 5, 1, 1, False)]  # without the trigger one worker is not enough: the model must say so
    def model(j):
        rc, out, st = c.tlc("PanelTrigger", CFG % (j[0], j[1], j[2], j[3], "TRUE" if j[4] else "FALSE", "NothingOwed" if j[4] else ""), None, None, 2, 3000,
                            tag="PanelTrigger-%d-%d-%d-%d-%s" % j, expect_ok=j[4])
        if not j[4] and "Deadlock reached" not in open(out).read():
            raise vlib.CheckError("PanelTrigger finds no deadlock without the trigger")
    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(model, j) for j in jobs]
        eigen.replay(c, [((1,), 60, 20), ((2,), 60, 16), ((3,), 100, 22), ((4,), 60, 22), ((5,), 60, 24), ((6, 1), 40, 24)], 16, mode=("schedules",))
        for f in fs:
            f.result()
