from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 60):
        kind = rng.randint(0, 3)
        den = rng.choice([16, 256, 4096, 1])
        lo = rng.randint(-2 * den, 2 * den)
        hi = lo + rng.choice([0, 1, 2, rng.randint(0, 2 * den)])
        sc = [("new", [kind, den, lo, hi])]
        x = lo
        for _ in range(100):
            if rng.random() < .5:
                x = rng.choice([lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, lo - den, hi + den, (lo + hi) // 2])
            else:
                x += rng.randint(-3, 3)
            sc.append(("in", [x]) if kind == 3 or rng.random() < .8 else ("near", [rng.randint(0, 1), rng.randint(-1, 1)]))
            if kind == 0 and rng.random() < .3:
                sc.append((rng.choice(["just_pressed", "just_released"]), []))
            if kind >= 2 and rng.random() < .1:
                sc.append(("last", [rng.randint(0, 1)]))
        out.append(sc)
    return out


PARTS = [Part("schmitt", "Schmitt", "schmitt.cc", gen, dup=True)]
