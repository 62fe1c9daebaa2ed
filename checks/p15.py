"""P15: behaviours of spec/TileAccess.tla with views (sub-pipelines, retiled matrices, references) replayed into the
matrices of the library on the deterministic runtime."""
import vlib
from p14 import replay


def run(c):
    T = vlib.THOROUGH
    S = 20 if T else 1
    A = ["access", "views"]
    L = ["access", "lazy", "views", "done", "wait", "moves"]
    replay(c, [
        ("nested", (2, 1, 2, 1), 5 if T else 4, 3, 5, 4, [], [(2, 1)], A, 0, 1, 2),
        ("views", (3, 3, 2, 2), 14, 4, 24, 14, [], [(2, 1), (1, 2), (2, 2), (1, 1)], L, 100 * S, 2, 4),
        ("retiled", (7, 3, 6, 2), 12, 4, 24, 12, [], [(2, 1), (3, 2), (6, 1), (3, 1)], A + ["moves", "done"], 100 * S, 2, 4),
        ("refs", (5, 4, 2, 2), 12, 4, 30, 14, [(1, 1, 3, 2), (0, 0, 3, 3), (2, 0, 3, 4), (3, 3, 1, 1), (0, 0, 5, 4), (1, 0, 1, 4)], [(2, 1), (1, 2), (2, 2)], L + ["refs"], 50 * S, 2, 4),
        ("long", (2, 2, 2, 1), 24, 6, 30, 20, [], [(2, 1), (1, 1)], L, 80 * S, 2, 6),
    ], [("deep", (2, 1, 2, 1), 6 if T else 5, 3, 5, 4, [], [(2, 1)], A)])
