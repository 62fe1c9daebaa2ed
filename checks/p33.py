import eigen


def run(c):
    c.bounds = "matrices up to 24x24, tile sizes 1-8, local and grids up to 2x3"
    eigen.replay(c, [((1,), 150, 20), ((2,), 150, 16), ((3,), 150, 22), ((4,), 150, 22), ((5,), 180, 24), ((6, 1), 100, 24)], 3)
