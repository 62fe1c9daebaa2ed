"""P24: triangular solves."""
import algebra


def run(c):
    algebra.replay(c, [2], [2, 2, 2, 3], depth=3, jobs=7, extra=[(2, [2], "1"), (2, [2], "1")])
