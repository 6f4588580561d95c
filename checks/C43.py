from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 80):
        c = rng.choice([[1, 64], [4, 64], [4, 16], [8, 32], [24, 128], [5, 4096]])
        sc = [("new", c)]
        live = {}
        for _ in range(60):
            x = rng.random()
            if x < .5 and len(live) < 12:
                k = min(i for i in range(20) if i not in live)
                n = rng.choice([0, 1, 2, 3, c[1] // c[0], c[1] // c[0] + 1, max(0, c[1] // c[0] - 1), rng.randint(1, 3000)])
                if n:
                    live[k] = 1
                sc.append(("alloc", [k, n, rng.randint(0, 1)]))
            elif x < .85 and live:
                k = rng.choice(list(live))
                del live[k]
                sc.append(("free", [k]))
            elif x < .9:
                sc.append(("vector", [rng.randint(0, 40)]))
            elif x < .93:
                sc.append(("huge", [rng.randint(0, 3), 1 if c[0] > 1 and rng.random() < .7 else 0]))
            else:
                sc.append(("padded", [rng.randint(0, 10)]))
        out.append(sc)
    return out


PARTS = [Part("align", "Align", "align.cc", gen, explore=False, echo=True)]
