"""P16: behaviours of spec/TileAccess.tla that cut, copy and share accesses, replayed into tiles on the deterministic
runtime."""
import vlib
from p14 import replay


def run(c):
    T = vlib.THOROUGH
    S = 20 if T else 1
    A = ["access", "lazy", "split"]
    replay(c, [
        ("cuts", (3, 2, 3, 2), 4, 1, 2, 7, [], [], A, 0, 1, 1),
        ("parts", (4, 3, 4, 3), 14, 1, 6, 18, [], [], A, 150 * S, 2, 4),
        ("tiles", (3, 3, 2, 2), 16, 1, 10, 20, [], [], A + ["moves"], 200 * S, 2, 4),
        ("refs", (5, 4, 3, 2), 12, 1, 8, 16, [(1, 1, 3, 2), (0, 0, 4, 3), (2, 0, 3, 4), (3, 3, 1, 1), (1, 0, 1, 4)], [], A + ["refs"], 120 * S, 2, 4),
        ("views", (4, 2, 4, 2), 16, 3, 16, 20, [], [(2, 1), (1, 2), (2, 2)], A + ["views"], 150 * S, 2, 4),
    ], [("deep", (2, 2, 2, 2), 6 if T else 5, 1, 2, 6, [], [], A)])
