"""Configurations for the distribution specifications (used by p11 and p12)."""
import random


def dims(rng, maxnp, maxts, maxtpb):
    out = []
    for ts in range(1, maxts + 1):
        for tpb in range(1, maxtpb + 1):
            for np_ in range(1, maxnp + 1):
                cyc = ts * tpb * np_
                for src in range(np_):
                    for off in sorted({0, 1, ts - 1, ts, ts * tpb - 1, ts * tpb, ts * tpb + 1, cyc - 1, cyc, rng.randrange(cyc + 1)}):
                        for n in sorted({0, 1, ts, ts + 1, ts * tpb, cyc, rng.randrange(2 * cyc + 1), rng.randrange(cyc + 1)}):
                            out.append((n, ts, tpb, np_, src, off))
    return out


def rand_dim(rng, big=False):
    ts = rng.randint(1, 12 if big else 6)
    tpb = rng.randint(1, 6 if big else 4)
    np_ = rng.randint(1, 7 if big else 4)
    cyc = ts * tpb * np_
    return (rng.randrange(min(3 * cyc, 160)), ts, tpb, np_, rng.randrange(np_), rng.randrange(min(2 * cyc, 100) + 1))


def fmt(d):
    return "<<" + ", ".join(map(str, d)) + ">>"


def pairs(seed, count, maxnp=3, maxts=3, maxtpb=3, nrandom=0):
    """Every one-dimensional configuration appears once as rows and once as columns when count is None."""
    rng = random.Random(seed)
    rows = dims(rng, maxnp, maxts, maxtpb)
    cols = list(rows)
    rng.shuffle(rows)
    rng.shuffle(cols)
    p = list(zip(rows, cols))
    if count is not None:
        p = p[:count]
    for _ in range(nrandom):
        p.append((rand_dim(rng, rng.random() < 0.3), rand_dim(rng, rng.random() < 0.3)))
    # one-rank and one-tile-per-block configurations exercise the short constructors
    for _ in range(max(20, (count or 1000) // 20)):
        def one(np1):
            ts = rng.randint(1, 5)
            np_ = 1 if np1 else rng.randint(1, 3)
            return (rng.randrange(4 * ts * np_), ts, 1, np_, rng.randrange(np_), rng.randrange(2 * ts * np_ + 1))
        b = rng.random() < 0.6
        p.append((one(b), one(b)))
    return sorted(set(p))


def tla(ps):
    return "{" + ",\n ".join("<<%s, %s>>" % (fmt(a), fmt(b)) for a, b in ps) + "}"
