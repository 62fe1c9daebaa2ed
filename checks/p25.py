"""P25: products."""
import algebra


def run(c):
    algebra.replay(c, [3, 4, 5], [3, 4, 5], depth=3, jobs=6, extra=[(4, [4], "2, 3"), (3, [3], "1"), (3, [3], "1"), (5, [5, 3], "1")])
