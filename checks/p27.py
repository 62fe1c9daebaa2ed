"""P27: generalised to standard form."""
import algebra


def run(c):
    algebra.replay(c, [8], [8, 2, 1], depth=2, jobs=7, extra=[(8, [8, 2], "1")])
