from vt import Part


def two(rng, m):
    a = rng.randint(-m, m)
    b = rng.randint(-m, m)
    while b == a:
        b = rng.randint(-m, m)
    return [a, b]


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 80):
        sc = [("new", [0])]
        for _ in range(60):
            x = rng.random()
            if x < .15:
                m = rng.choice([3, 10, 100])
                sc.append((rng.choice(["make", "cal2", "cal"]), two(rng, m) + two(rng, m)))
            elif x < .2:
                sc.append((rng.choice(["set", "lit"]), [rng.choice([-1, 1]) * rng.randint(4, 200), rng.randint(-100, 100)]))
            elif x < .25:
                sc.append(("show", []))
            else:
                sc.append((rng.choice(["adjust", "reverse", "there"]), [rng.randint(-400, 400)]))
        out.append(sc)
    return out


def gen_voct(rng, thorough):
    out = []
    for _ in range(500 if thorough else 100):
        c = rng.choice([0, 0, 1, 2])
        sc = [("new", [c])]
        m = 100 if c else rng.choice([50, 5000, 100000])
        lo = rng.choice([0, 1])         # with and without readings of C0
        for _ in range(rng.choice([6, 40])):
            x = rng.random()
            if x < .15:
                sc.append(("reset", []))
                lo = rng.choice([0, 1])
            else:
                n = rng.choice([lo, 1, 2, 3, 4, 5, 8, 10, 11]) if rng.random() < .8 else rng.randint(lo, 4)
                sc.append(("rec", [n, rng.choice([0, m, -m, rng.randint(-m, m)]) if rng.random() < .5 else n * 10 + rng.randint(-2, 2)]))
        out.append(sc)
    return out


PARTS = [Part("calib", "Calib", "calib.cc", gen, dup=True),
         Part("voct", "Voct", "voct.cc", gen_voct, dup=True)]
