import movement


def run(c):
    c.bounds = "matrices up to 12x12, tile sizes 1-5, local and grids up to 2x3"
    movement.replay(c, [(14,), (14, 16), (14,), (14,), (16,)], 120, 4, 12, 6, perms=True, square=range(5))
