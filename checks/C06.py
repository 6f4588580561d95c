from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(500 if thorough else 90):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 16, 64] if thorough or rng.random() < .2 else [1, 2, 3, 4, 5, 8])
        init = []
        if rng.random() < .4:
            init = [rng.choice([-1, 0, rng.randint(1, 900)]) for _ in range(n)]
        sc = [("new", [rng.randint(0, 1), n] + init)]
        v = 1000
        for _ in range(40 if n < 16 else 30 if n == 16 else 140):
            v += 1
            x = rng.random()
            if x < .55:
                sc.append(("write", [v if rng.random() < .9 else 0, 0, 0]))
            elif x < .65:
                sc.append(("restart", []))
            elif x < .85:
                sc.append(("read", []))
            else:
                sc.append(("crash", [v, rng.randint(1, 3), rng.randint(0, 2)]))
        out.append(sc)
    ops = [("read", []), ("write", [5, 0, 0]), ("read", []), ("write", [6, 0, 0]), ("restart", []), ("read", []), ("write", [7, 0, 0]), ("crash", [8, 1, 1]), ("read", []), ("restart", []), ("write", [9, 0, 0]), ("read", [])]
    for kind in (0, 1):
        for k in (0, 254, 256, 257, 296):
            out.append([("new", [kind, 300] + [1000 + i for i in range(k)] + [-1] * (300 - k))] + ops)
    return out


PARTS = [Part("wear_level", "WearLevel", "wear_level.cc", gen, twin=False)]
