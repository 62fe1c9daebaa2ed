"""P23: Cholesky factorisation."""
import algebra


def run(c):
    algebra.replay(c, [1], [1, 1, 2], depth=3, extra=[(1, [1, 1, 2], "1")])
