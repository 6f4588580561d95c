from vt import Part

RATES = [8, 10, 60, 1000, 48000, 1000000]


def gen(rng, thorough):
    out = []
    for _ in range(500 if thorough else 100):
        kind = rng.choice([0, 0, 1, 2])
        R = rng.choice(RATES)
        sc = [("new", [kind, R, rng.choice([-1, 0, 1, R // 4, R // 2])])]
        for _ in range(60):
            x = rng.random()
            f = rng.choice([0, 1, 2, R // 8, R // 4, R // 3, R // 2, rng.randint(0, R)])
            if x < .08:
                sc.append(("freq", [f]))
            elif x < .2 and kind == 0:
                k = rng.choice(["ifreq", "ffreq", "ms", "sec"])
                a = f if k == "ifreq" else rng.randint(0, 4 * min(R, 2000)) if k == "ffreq" else rng.choice([1, 3, 250, 999, 1000, 1001, 1500, 2000, 4321, 70000, 100000]) if k == "ms" else rng.choice([1, 2, 3, 10])
                if k == "ms" and R * a > 8 * 10 ** 6:
                    a = 1 + 1000 // R + rng.randint(0, 50)
                if k == "ms" and 1000 > R * a:      # faster than the updates
                    a = 1000 // R + 1
                sc.append((k, [a]))
            elif x < .27:
                sc.append(("phase", rng.choice([[0, 0], [65535, 65535], [32768, 0], [32767, 65535], [16384, 0], [rng.randint(0, 65535), rng.randint(0, 65535)]])))
            elif x < .35:
                sc.append(("skip", [rng.choice([1, 10, 1000, rng.randint(1, 5000)]) if R < 10 ** 6 else rng.randint(1, 10)]))
            else:
                sc.append((rng.choice(["val", "update", "process", "float"] + (["process2"] if kind == 1 else [])
                                      if kind < 2 else ["val", "process", "bipolar", "unipolar"]), []))
        out.append(sc)
    for _ in range(300 if thorough else 60):
        R = rng.choice(RATES[:-1])
        sc = [("new", [3, R, -1])]
        for _ in range(rng.randint(2, 6)):
            n = rng.choice([0, 1, 2, 3, 10, rng.randint(1, 80)])
            ms = n * 1000 // R
            sc.append(rng.choice([("ms", [ms]), ("ms", [ms + 1]), ("freq", [rng.choice([0, 1, R // 2, R // 7])]), ("reset", [])]))
            if rng.random() < .6:
                sc.append(("reset", []))
            if rng.random() < .15:
                sc.append(("phase", rng.choice([[0, 0], [16384, 0], [65535, 65535]])))
            sc += [(rng.choice(["update", "update", "val"]), []) for _ in range(rng.choice([2, n + 4, 5]))]
        out.append(sc)
    for _ in range(300 if thorough else 60):
        R = rng.choice([-1, 10, 100, 1000, 48000, 44100])
        sc = [("new", [4, R])] + [("update", [])] * rng.choice([0, 0, 1, 3])
        hz = 4 * (48000 if R < 0 else R)
        for _ in range(rng.randint(1, 6)):
            x = rng.random()
            if x < .2:
                h = rng.choice([0, -5, -1, 1, 2, 3, 4, 6, 32, 200, 384000])
                sc += [("stop", []), ("rate", [h])]
                hz = h if h > 0 else hz
            elif x < .3:
                sc.append(("stop", []))
            else:
                q = rng.choice([0, 1, 4, 5, 7, 8, 40, rng.randint(0, 300), rng.randint(100, 300)])
                sc.append(("start", [q, hz]))
                sc += [("update", [])] * rng.choice([0, 1, q // 4 + 3])
            sc += [("update", [])] * rng.randint(0, 3)
        out.append(sc)
    return out


PARTS = [Part("osc", "Osc", "osc.cc", gen, explore=False, extra_src=["$REPO/util/math_tables.cc"], dup=True)]
