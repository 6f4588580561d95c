from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(300 if thorough else 60):
        sc = [("new", [rng.randint(0, 4)])] + [("fits", [n]) for n in (8, 16, 20, 32)]
        full = [False] * 3
        for _ in range(80):
            x = rng.random()
            i, j = rng.randint(0, 2), rng.randint(0, 2)
            if x < .25:
                sc.append((rng.choice(["store", "make"]), [i, rng.choice([1, 1, 2, 3, 4]), rng.randint(1, 60)]))
                full[i] = True
            elif x < .5:
                sc.append((rng.choice(["assign", "copy"]), [i, j]))
                full[i] = full[j]
            elif x < .58:
                sc.append(("clear", [i]))
                full[i] = False
            elif full[i]:
                sc.append(("call", [i, rng.randint(0, 9)]))
        out.append(sc)
    return out


PARTS = [Part("callable", "Callable", "callable.cc", gen, twin=False)]
