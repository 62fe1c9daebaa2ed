"""P26: inverses."""
import algebra


def run(c):
    algebra.replay(c, [6, 7], [6, 7, 1], depth=2, jobs=6, extra=[(6, [6], "2, 3"), (7, [7], "2, 3"), (6, [6, 7], "1")])
