import itertools
from conc import SpecPart
from vt import Part


def gen(rng, thorough):
    out = []
    # every short list of small values
    for c in ([2, 8, 0], [3, 6, 0], [3, 6, 2], [2, 8, 1], [1, 4, 0]):
        top = 4 if c[0] == 2 else 3
        sc = [("new", c)]
        for n in range(0, 5 if not thorough else 6):
            if n > c[1]:
                break
            for v in itertools.product(range(top), repeat=n):
                if rng.random() < .5 or thorough:
                    sc.append(("calc", [n] + list(v) + [0]))
                if rng.random() < .2:
                    m = rng.randint(0, c[0])
                    sc.append(("calc", [n] + list(v) + [m] + [rng.randint(0, 3) for _ in range(m)]))
        out.append(sc)
    for _ in range(300 if thorough else 60):
        c = rng.choice([[3, 6, 4], [3, 6, 5], [3, 6, 6], [1, 4, 0], [2, 8, 0], [2, 8, 1], [3, 6, 0], [3, 6, 2], [4, 33, 0], [4, 33, 3], [8, 20, 0]])
        sc = [("new", c)]
        for _ in range(25):
            n = rng.choice([c[1], c[1] - 1, rng.randint(0, c[1])])
            top = rng.choice([1, 3, 10, 1000])
            v = [rng.randint(0, top) for _ in range(n)]
            if rng.random() < .1:
                sc.append(("look", []))
            if rng.random() < .1:
                v = sorted(v)
            if rng.random() < .1:
                v = sorted(v, reverse=True)
            m = rng.choice([0, 0, rng.randint(0, c[0])])
            sc.append(("ctor" if m == 0 and rng.random() < .2 else "calc", [n] + v + [m] + [rng.randint(0, 2 * top) for _ in range(m)]))
        out.append(sc)
    sc = [("new", [3, 300, 0])]
    for n, top in ((300, 1000), (257, 2), (256, 5000000), (4, 500000000)):
        sc.append(("calc", [n] + [rng.randint(0, top) for _ in range(n)] + [0]))
    out.append(sc + [("calc", [3, 300000000, 600000000, 400000000, 2, 70000, 400000000])])
    return out


def cfg(n, l, v, i):
    return (f"SPECIFICATION GSpec\nCONSTANTS\n N = {n}\n MaxLen = {l}\n MaxVal = {v}\n MaxInit = {i}\n"
            "INVARIANT Covered\nINVARIANT Balanced\nINVARIANT Smallest\nCHECK_DEADLOCK FALSE\n")


PARTS = [Part("partition", "Partition", "partition.cc", gen, explore=False, echo=True, dup=True),
         SpecPart("greedy", "GreedyPart", cfg(2, 5, 4, 2), cfg(3, 6, 4, 2))]
