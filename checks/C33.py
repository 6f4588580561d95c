from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 80):
        c = rng.choice([[0, 0], [0, 1], [0, 3], [0, 4], [0, 2], [0, 5], [0, 6], [0, 7]])
        lo, hi = (0, 200) if c[1] in (2, 5) else (-120, 120)
        if rng.random() < .3:
            lo, hi = (lo, -1) if lo else (100, 200)
        sc = [("new", c)]
        for _ in range(40):
            sc.append(("reset", []) if rng.random() < .15 else ("look", []) if rng.random() < .1 else ("update", [rng.randint(lo, hi)]))
        out.append(sc)
        sc = [("new", [1, rng.choice([1, 2, 4, 5, 100])])]
        m = rng.choice([256, 2560, 100000])
        lo, hi = rng.choice([(-m, m), (-m, -1), (1, m)])
        if rng.random() < .7:
            sc.append(("reset_to", [rng.randint(lo, hi)]))
        for _ in range(60):
            sc.append(("look", []) if rng.random() < .1 else ("reset_to" if rng.random() < .05 else "update", [rng.choice([lo, hi, rng.randint(lo, hi)])]))
        out.append(sc)
    return out


PARTS = [Part("signal", "Signal", "signal.cc", gen, dup=True)]
