from vt import Part


def col(rng):
    x = rng.random()
    if x < .3:
        return [rng.choice([0, 255]) for _ in range(3)]
    if x < .5:
        return [rng.choice([0, 1, 127, 128, 200, 254, 255]) for _ in range(3)]
    return [rng.randint(0, 255) for _ in range(3)]


def gen(rng, thorough):
    out = []
    for _ in range(500 if thorough else 120):
        R = rng.choice([1000, 100, 48, 60, 7])
        sc = [("new", [R])]
        for _ in range(rng.randint(4, 14)):
            x = rng.random()
            if x < .15:
                sc.append(("base", col(rng)))
            elif x < .2:
                sc.append((rng.choice(["blend", "add"]), col(rng)))
            elif x < .5:
                n = rng.choice([0, 1, 2, 3, 5, 10, rng.randint(1, 60)])      # updates
                ms = max(0, min(60000, (n * 1000 + rng.choice([0, 0, 500])) // R + rng.choice([0, 0, 0, 1])))
                sc.append((rng.choice(["flash", "fade"]), col(rng) + [ms]))
            elif x < .62:
                sc.append(("breathe", col(rng) + [rng.choice([1, 2, 3, 4, R // 4, R // 2 + 1, R, rng.randint(1, 2 * R)])]))
            elif x < .67:
                sc.append(("still", []))
            elif x < .72:
                sc.append(("cal", rng.choice([[128, 128, 128], [100, 128, 128], [128, 255, 64], [0, 128, 255], [rng.randint(0, 255) for _ in range(3)]])))
            elif x < .8:
                sc.append(("skip", [rng.randint(1, 30)]))
            else:
                k = rng.choice(["set", "set8", "setf"])
                sc.append((k, col(rng) + ([] if k == "set" else [rng.randint(0, 255)] if k == "set8" else [rng.randint(0, 64)])))
            sc += [("update", [])] * rng.choice([1, 3, 12, rng.randint(0, 70)])
        out.append(sc)
    # long courses
    for R, ms in ((1000, 1000), (1000, 2500), (100, 30000), (48, 60000), (1000, 999), (1000, 1001), (60, 1500)):
        for k in ("flash", "fade"):
            n = ms * R // 1000
            if n > (3000 if thorough else 1100):
                continue
            sc = [("new", [R]), ("base", col(rng)), ("breathe", col(rng) + [1]), (k, col(rng) + [ms])]
            out.append(sc + [("update", [])] * (n + 50))
    return out


PARTS = [Part("led", "Led", "led.cc", gen, explore=False, echo=True, dup=True)]
