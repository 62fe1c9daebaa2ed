import movement


def run(c):
    c.bounds = "matrices up to 11x11, tile sizes 1-6, local and grids up to 2x3"
    movement.replay(c, [(10, 11, 12, 13, 17), (11, 12), (13,), (13, 13, 10, 18), (13, 12, 19), (12, 17, 10)], 160, 6, 11, 5)
