from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(500 if thorough else 100):
        c = rng.choice([[0, 1, 0], [0, 4, 0], [0, 8, 1], [0, 64, 0], [0, 64, 1], [1, 1, 1], [1, 4, 0], [1, 8, 1], [1, 64, 0], [2, 1, 0],
                        [2, 3, 1], [2, 6, 0], [3, 1, 0], [3, 4, 0], [3, 8, 0], [3, 5, 0], [4, 4, 0], [5, 1, 0], [5, 1, 1], [6, 0, 0], [6, 40, 0], [7, 0, 0], [7, 2, 0], [7, 4, 0], [7, 64, 0], [3, 4, 4], [3, 1, 4], [3, 8, 4]])
        sc = [("new", c)]
        last = 0
        for _ in range(200 if c[1] == 64 else 80):
            v = rng.choice([0, 4095, rng.randint(0, 4095)])
            if c[0] in (2, 3):
                v = min(v, 900)
            if c[0] == 6:
                v = rng.choice([last + rng.randint(-6, 6), rng.randint(-1000, 1000)])
                last = v
            if c[0] == 7:
                # stays within the exactly representable range
                v = last + rng.randint(-3, 3) if abs(last) < 1000 else last - (1 if last > 0 else -1)
                last += (v - last) * abs(v - last)
            x = rng.random()
            if c[0] == 3 and x < .3:
                sc.append(rng.choice([("set_size", [rng.randint(1, 8)]), ("set_size", [rng.randint(1, 8)]), ("reset", []), ("save", []), ("load", [])]))
            elif c[0] == 4 and x < .4:
                sc.append(("val", []))

            else:
                sc.append(("add", [v]))
                if c[0] != 4 and x > .9:
                    sc.append(("look", []))
        out.append(sc)
    for c, vmax, n in (([0, 512, 0], 4095, 1100), ([1, 512, 1], 4095, 1100), ([2, 280, 0], 600, 700), ([0, 64, 2], 16777215, 150), ([1, 64, 2], 16777215, 140), ([0, 8, 3], 255, 60), ([3, 280, 0], 200, 1000)):
        sc = [("new", c)]
        for i in range(n):
            if c[0] == 3 and i in (210, 700, 910):
                sc.append(("set_size", [{210: 420, 700: 280, 910: 210}[i]]))
            sc.append(("add", [rng.choice([vmax, vmax, rng.randint(0, vmax)])]))
        out.append(sc)
    # fractional steps: as far as they are exact
    for u, w, n in [(256, 0, 3), (1024, 4, 2)] * 10:
        sc = [("new", [7, w, u])]
        for _ in range(n):
            sc.append(("add", [rng.randint(-3, 3) * (u // 2)]))
            sc.append(("look", []))
        out.append(sc)
    # windows longer than any 16-bit count
    for c, per in (([0, 131072, 0], 131072), ([1, 131072, 0], 131072), ([2, 70000, 0], 70000), ([3, 70000, 0], 70000)):
        sc = [("new", c)]
        for rnd in range(4 if thorough else 2):
            cut = sorted(rng.randint(1, per - 2) for _ in range(3))
            v = [rng.randint(0, 200) for _ in range(4)] if c[0] < 2 else [rng.randint(0, 100)] * 4
            for n, x in zip([cut[0], cut[1] - cut[0], cut[2] - cut[1], per - 1 - cut[2]], v):
                sc.append(("adds", [x, n]))
            sc.append(("add", [v[3]]))
            sc.append(("add", [v[3]]))
            sc.append(("adds", [v[3], per - 2]))
            sc.append(("add", [v[3]]))
        out.append(sc)
    return out


PARTS = [Part("filter", "Filter", "filter.cc", gen, dup=True)]
