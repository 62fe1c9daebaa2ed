"""texts.py FILE: evaluate printed matrices (one JSON record per line) and compare them with what the specification says."""
import json, re, sys
import numpy as np

bad = n = 0


def number(c):
    return {10001: float("nan"), 10002: float("inf"), 10003: float("-inf")}.get(c, float(c))


def miss(r, what):
    global bad
    bad += 1
    if bad <= 20:
        print("MISMATCH printed matrix of behaviour %d (%d x %d, %s): %s" % (r["seed"], r["m"], r["n"], "complex" if r["complex"] else "real", what))


def same(a, b):
    return (np.isnan(a) and np.isnan(b)) or a == b


def alike(a, b):
    return same(np.real(a), np.real(b)) and same(np.imag(a), np.imag(b))


for line in open(sys.argv[1]):
    r = json.loads(line)
    n += 1
    m, k = r["m"], r["n"]
    want = np.zeros((m, k), dtype=complex)
    v = r["values"]
    for j in range(k):
        for i in range(m):
            want[i, j] = complex(number(v[2 * (i + j * m)]), number(v[2 * (i + j * m) + 1]))
    mine = np.zeros((m, k), dtype=bool)
    for (a, b, h, w) in r["mine"]:
        mine[a:a + h, b:b + w] = True
    ns = {"np": np}
    try:
        exec(r["numpy"], ns)
        got = ns["a"]
        if got.shape != (m, k):
            miss(r, "numpy shape %s" % (got.shape,))
        elif got.dtype != (np.csingle if r["complex"] else np.single):
            miss(r, "numpy type %s" % got.dtype)
        else:
            for i in range(m):
                for j in range(k):
                    w = want[i, j] if mine[i, j] else 0
                    if not alike(got[i, j], w):
                        miss(r, "numpy has %s at (%d, %d) and should have %s" % (got[i, j], i, j, w))
                        raise StopIteration
    except StopIteration:
        pass
    except Exception as e:
        miss(r, "not accepted by numpy: %s: %s" % (type(e).__name__, e))
    if r["local"]:
        lines = r["csv"].split("\n")
        if lines[0] != "name" or lines[-1] != "" or len(lines) != m + 2:
            miss(r, "csv has %d lines" % len(lines))
            continue
        for i in range(m):
            t = lines[1 + i]
            items = [complex(float(a), float(b)) for a, b in re.findall(r"\(([^,()]*),([^,()]*)\),", t)] if r["complex"] else [float(x) for x in t.split(",")[:-1]]
            if len(items) != k:
                miss(r, "csv row %d has %d entries: %s" % (i, len(items), t))
                break
            if not all(alike(items[j], want[i, j]) for j in range(k)):
                miss(r, "csv row %d is %s and should be %s" % (i, items, list(want[i])))
                break
print("DONE texts=%d bad=%d" % (n, bad))
sys.exit(1 if bad else 0)
