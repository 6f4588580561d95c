from vt import Part

KW = {0: 1, 1: 2, 2: 4, 4: 4, 6: 300}


def gen(rng, thorough):
    out = []
    for _ in range(500 if thorough else 110):
        kt, st = rng.choice([(0, 1), (0, 2), (2, 1), (1, 2), (2, 4), (4, 2), (1, 8)])
        cap = rng.choice([0, 1, 7, 20, 64, 200, 700])
        sc = [("new", [kt, st, cap, 0])]
        keys = [[rng.choice([1, 2, 97, 98, 255, 0]) for _ in range(KW[kt])] for _ in range(4)]
        if kt == 2:
            keys = [[97, 0, rng.randint(0, 255), 5], [97, 98, 0, 0], [0, 9, 9, 9], [97, 98, 99, 100], [97, 200, 255, 128]]
        depth, opened = 0, []
        most = 3 if (kt, st) in ((0, 1), (2, 1)) else 8         # what the writer is made for
        over = rng.random() < .15                               # ... and deeper, where only the sizes around it count
        if over:
            most += 3
        deep = rng.random() < (.7 if over else .3)              # straight down to the deepest level
        for _ in range(rng.choice([3, 10, 25])):
            x = rng.random()
            k = rng.choice(keys)
            n = 0
            if deep:
                x = .7
            if x < .35:
                n = rng.choice([1, 2, 3, 4, 8])
                sc.append(("field", k + [n, rng.randint(0, 255)]))
            elif x < .6:
                n = rng.choice([0, 0, 1, 5, 40, 255 if rng.random() < .2 else 3])
                sc.append(("raw", k + [n, rng.randint(0, 255)]))
            elif (x < .8 or deep) and depth < most:
                sc.append(("begin", k))
                depth += 1
                opened.append(k)
                deep = deep and depth < most
            elif x < .98 or depth:
                sc.append(("end", []))
                depth = max(0, depth - 1)
            if rng.random() < .3:
                sc.append(("look", []))
        for _ in range(depth):
            sc.append(("end", []))
        sc.append(("look", []))
        if over:
            out.append(sc)
            continue
        sc.append(("others", []))
        for _ in range(6):
            p = rng.choice(keys) + (rng.choice(keys) if rng.random() < .5 else [])
            sc.append(("lookup", p))
        out.append(sc)
    return out


def big(rng, thorough):
    out = []
    for _ in range(160 if thorough else 40):
        kt, st, deep = rng.choice([(1, 2, 3), (2, 4, 12), (0, 4, 2), (1, 8, 20), (6, 2, 8)])
        cap = rng.choice([0, 300, 65536, 66000, 140000, 200000])
        sc = [("new", [kt, st, cap, deep, 0])]
        keys = [[rng.choice([1, 2, 97, 200, 255]) for _ in range(KW[kt])] for _ in range(5)]
        if kt == 6:
            base = [97 + i % 7 for i in range(300)]
            keys = [base] + [base[:i] + [0] + [200] * (299 - i) for i in (0, 44, 256, 299)] + [base[:i] + [1] + base[i + 1:] for i in (255, 299)]
        depth, total, spots, down = 0, 0, [0], rng.random() < .3
        for _ in range(rng.choice([5, 12, 40])):
            x = rng.random()
            k = rng.choice(keys)
            if down:
                x = .7
            if x < .2:
                n = rng.choice([1, 2, 4, 8, 16, 300] + [65535, 70000] * (st > 2 and total < 250000))
                total += n
                sc.append(("field", k + [n, rng.randint(0, 255)]))
            elif x < .6:
                n = rng.choice([0, 100, 254, 255, 256, 300, 1000, 32767, 32768, 40000, 65535] + ([65536, 70000] if st > 2 else []))
                if total > 250000:
                    n = rng.randint(0, 300)
                if st == 2 and depth:      # an object of two-byte size
                    n = rng.randint(0, 5000)
                sc.append(("raw", k + [n, rng.randint(0, 255)]))
                total += n
            elif (x < .8 or down) and depth < deep:
                sc.append(("begin", k))
                depth += 1
                n = 0
                down = down and depth < deep
            else:
                sc.append(("end", []))
                depth = max(0, depth - 1)
                continue
            spots.append(total + 8 * len(sc))
            for _ in range(2):
                sc.append(("at", [max(0, rng.choice(spots) + rng.randint(-40, 40)), 40]))
        sc += [("end", [])] * depth
        for p in rng.sample(spots, min(6, len(spots))) + [max(0, cap - 20), 65516, 32750]:
            sc.append(("others_at", [max(0, p - 20), 60]))
            sc.append(("at", [max(0, p - 20), 60]))
        for _ in range(8):
            k = rng.choice(keys) + (rng.choice(keys) if rng.random() < .5 else [])
            sc.append(("lookup_at", [rng.choice([0, 0, 240, 32760, 65530]), 16] + k))
        out.append(sc)
    # hundreds of entries in one object, the one looked for late
    for inside in (False, True):
        for n in (257, 400):
            sc = [("new", [1, 2, 66000, 3, 0])]
            if inside:
                sc += [("raw", [7, 7, 3, 1]), ("begin", [9, 9])]
            for i in range(n):
                if i == n - 5:
                    sc += [("begin", [5, 5]), ("field", [1, 2, 4, 77]), ("end", [])]
                sc.append(rng.choice([("raw", [1 + i // 200, 10 + i % 200, rng.choice([0, 1, 3]), i % 256]), ("field", [1 + i // 200, 10 + i % 200, rng.choice([1, 2, 4, 8]), i % 256])]))
            sc += [("end", [])] * inside + [("raw", [8, 8, 4, 3])]
            pre = [9, 9] if inside else []
            for i in (0, 1, 254, 255, 256, n - 2, n - 1):
                sc.append(("lookup_at", [0, 8] + pre + [1 + i // 200, 10 + i % 200]))
            sc += [("lookup_at", [0, 8] + pre + [5, 5, 1, 2]), ("lookup_at", [0, 8, 8, 8]), ("lookup_at", [0, 8, 9, 8])]
            out.append(sc)
    return out


# documents beyond 64 KiB, blocks of more than 255 bytes, other depths
BIG = Part("large", "CompactBig", "compact.cc", big, steps=.1, dup=True)
PARTS = [Part("compact", "Compact", "compact.cc", gen, dup=True), BIG]
