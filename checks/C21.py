from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 80):
        kind = rng.choice([0, 1, 1, 2])
        if kind == 1:
            typ, mn = rng.choice([(0, 10), (1, 3), (1, 100), (2, 4), (2, 16), (2, 1), (3, 8)])
            sc = [("new", [1, typ, mn, 0, 0])]
        else:
            typ, mn = rng.randint(0, 3), 5
            sc = [("new", [kind, typ, 0, rng.choice([0, 7, 100]), 1])]
        lo, hi = {0: (-100000, 100000), 1: (0, 200000), 2: (-60000, 60000), 3: (0, 255)}[typ]
        v = 0
        for _ in range(70):
            x = rng.random()
            d = rng.choice([0, 1, -1, mn, -mn, mn - 1, 1 - mn, mn + 1, rng.randint(-3 * mn, 3 * mn), rng.randint(lo, hi)])
            v = min(hi, max(lo, v + d))
            if x < .35:
                sc.append(("changed", []))
            elif kind == 1:
                sc.append((rng.choice(["store"] * 8 + ["assign"]), [v]) if x < .93 else (rng.choice(["save", "restore"]), []))
            else:
                sc.append((rng.choice(["set", "assign", "poke"] if kind == 2 else ["set", "assign"]), [v]))
        out.append(sc)
    return out


PARTS = [Part("param", "Param", "param.cc", gen, dup=True)]
