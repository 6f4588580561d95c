from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(500 if thorough else 90):
        kind = rng.randint(0, 1)
        typ = rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7]) if kind == 0 else 2
        if typ == 0:
            m, d, per = 256, rng.randint(0, 255), rng.choice([1, 2, 7, 100, 127, 128, 129, 200, 255])
        elif typ == 1 and rng.random() < .5:
            m, d, per = 65536, rng.randint(0, 65535), rng.choice([1, 300, 30000, 40000, 65535])
        else:
            m, d, per = 0, rng.randint(1, 2000), rng.choice([0, 1, 2, 10, 100, 1000])
        if typ in (4, 5) and kind == 0:
            d = rng.randint(1000, 2000)
        if typ == 5 or typ == 4 or m == 0:
            per = max(per, 1 if kind == 0 else 0)
        sc = [("new", [kind, typ, m, d, per])]
        now = 0
        for i in range(80):
            k = max(0, rng.choice([0, 1, per - 1, per, per + 1, rng.randint(0, 2 * per + 1), 3]))
            if m:
                k = min(k, m - 1) if rng.random() < .8 else rng.randint(0, m - 1)
            elif now + k > 30000:
                k = 1
            if i == 0 and typ in (4, 5):
                k = 0           # fires before the signed counter wraps
            now += k
            if kind == 0:
                sc.append(("poll", [k]))
            else:
                sc.append((rng.choice(["sample", "sample_fn"]), [k, rng.randint(0, 1)]))
                if rng.random() < .4:
                    sc.append((rng.choice(["take", "take", "force", "reset"]), []))
        out.append(sc)
    return out


PARTS = [Part("poll", "Poll", "poll.cc", gen, dup=True)]
