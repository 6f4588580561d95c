from vt import Part

RANGES = [[0], [1], [2], [4], [0, 1], [1, 0], [0, 2], [2, 0], [0, 3], [3, 1], [0, 0], [4, 1], [0, 1, 2], [2, 1, 3], [3, 0, 1], [3, 0, 1, 2]]


def gen(rng, thorough):
    out = []
    for _ in range(300 if thorough else 60):
        sc = [("new", [0])]
        for _ in range(50):
            x = rng.random()
            if x < .3:
                k = rng.randint(0, 3)
                n = 3 if k == 2 else rng.choice([0, 1, 2, 3, 3, 4, rng.randint(0, 12)])
                sc.append(("set", [k] + [rng.randint(0, 100 if k == 3 else 1000) for _ in range(n)]))
            elif x < .9:
                sc.append(("walk", [rng.randint(0, 2), rng.choice([0, 0, 1, 2]), rng.randint(0, 1)] + rng.choice(RANGES)))
            else:
                sc.append(("get", []))
        out.append(sc)
    for n, m in [(256, 256), (257, 300), (300, 256), (65536, 65536), (65537, 70000), (70001, 65540), (140000, 131073)]:
        k = min(n, m)
        out.append([("new", [0])] + [("long", [v, n, m, f, 6]) for v in (0, 1, 2) for f in (0, 253, k - 4, rng.randrange(k))])
    return out


PARTS = [Part("zip", "Zip", "zip.cc", gen)]
