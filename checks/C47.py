from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(300 if thorough else 60):
        m = rng.choice([[0, 1, 2, 3], rng.sample(range(4), 4), [rng.randrange(4) for _ in range(4)], [0, 1, 2, 2], [1, 0, 2, 1]])
        sc = [("new", m)]
        for _ in range(25):
            w = lambda: rng.choice([0, 4096, 1024 * rng.randint(0, 4), rng.randint(0, 4096)])
            x, y = w(), w()
            if rng.random() < .85:
                x, y = min(x, y), max(x, y)
            if rng.random() < .3:
                y = min(4096, x + rng.randint(0, 3))
            if rng.random() < .5:
                sc.append(("check", [x, y, rng.randint(0, 1)]))
            else:
                v = rng.choice([rng.randrange(4096), min(x, 4095), max(0, y - 1), max(0, x - 1)])
                sc.append(("couple", [x, y, rng.randint(0, 1), rng.randrange(4), v, rng.randrange(32)]))
        out.append(sc)
    # every bit of a word, wherever the word is
    for v in (0, 1, 31, 1000, 1023, 1024, 4095):
        out.append([("new", rng.choice([[0, 1, 2, 3], [2, 0, 3, 1]]))] + [("flip", [0, 4096, b % 2, v, b]) for b in range(32)])
    for _ in range(40 if thorough else 12):
        m = rng.choice([[0, 1, 2, 3], rng.sample(range(4), 4), [rng.randrange(4) for _ in range(4)]])
        sc = [("new", m)]
        for _ in range(25):
            x = rng.randint(0, 4095)
            y = min(4096, x + rng.choice([1, 2, 3, 4, 5, 15, 16, 17, 33, 1000, 2000]))
            sc.append(("flip", [x, y, rng.randint(0, 1), rng.choice([x, y - 1, min(4095, y), rng.randrange(x, y)]), rng.randrange(32)]))
        out.append(sc)
    # large memories with a stuck address line
    for n in (256, 1024):
        for k in [-1] + list(range(n.bit_length() - 1)):
            if n > 256 and not thorough and k not in (-1, 0, 4, 8, 9):
                continue
            d = 1024 << max(k, 0)
            sc = [("new", [-1, n, k]), ("check", [0, n * 1024, 0]), ("check", [0, n * 512 + 1, 1])]
            for x in (0, 1, d, d + 5):
                for y in (x + d, x + d + 1, x + 2 * d, x + d + 5):
                    if y <= n * 1024:
                        sc.append(("check", [x, y, 0]))
            if k < 0:
                sc.append(("flip", [5, n * 1024, 0, n * 1024 - 1, 31]))
            out.append(sc)
    return out


PARTS = [Part("memory", "Memory", "memtest.cc", gen, twin=False)]
