import movement


def run(c):
    c.bounds = "matrices up to 12x12, tile sizes 1-5, local and grids up to 2x3"
    movement.replay(c, [(17, 18, 19, 20), (17, 18, 19, 20, 20, 10, 13), (21,), (21, 17, 18), (20, 17), (21,), (21, 17, 20), (20, 18, 20)], 150, 6, 12, 4, square=(5, 6, 7))
