from vt import Part


def limbs(x):
    return [(x >> (16 * i)) & 0xffff for i in range(4)]


def gen(rng, thorough):
    rows = []
    k = 12 if thorough else 1

    def some(w):
        b = rng.randrange(w + 1)
        return rng.choice([1 << b, (1 << b) - 1, (1 << b) + 1, rng.getrandbits(w), rng.getrandbits(max(1, b))]) & ((1 << w) - 1)
    for w in (8, 16, 32, 64):
        vals = {v & ((1 << w) - 1) for b in range(w + 1) for v in ((1 << b) - 1, 1 << b, (1 << b) + 1)} | {some(w) for _ in range(30 * k)}
        rows += [("np2", [w] + limbs(v)) for v in vals]
    for v in {x & 0xffffffff for b in range(33) for x in ((1 << b) - 1, 1 << b, (1 << b) + 1)} | {some(32) for _ in range(60 * k)}:
        rows += [("log2", limbs(v)), ("ispow", limbs(v)), ("swap32", limbs(v))]
    rows += [("slog2", [i]) for i in range(16)] + [("usize", [i]) for i in range(14)] + [("ssize", [i]) for i in range(24)]
    for _ in range(120 * k):
        rows.append(("ipow", [rng.choice([0, 1, 2, 3, rng.randint(0, 40)])] + limbs(rng.choice([0, 1, 2, 3, 10, 255, 65536, rng.getrandbits(32)]))))
        rows.append(("range", [rng.choice([8, 16, 32]), rng.choice([0, 1, -1, 5])]))
        t = rng.choice([8, 16, 31, 32])
        m = rng.choice([1, 5, 8, 100, 200])
        v = rng.choice([rng.randint(0, 255), m, m - 1, 2 * m, rng.randint(0, 100000)])
        rows.append(("wrapm", [m, t, v & (255 if t == 8 else 65535 if t == 16 else 0x7fffffff)]))
        t = rng.choice([8, 16, 32])
        lo = rng.randint(-20, 20)
        hi = lo + rng.choice([0, 1, 2, rng.randint(0, 30)])
        lim = 75 if t == 8 else 1000 if t == 16 else rng.choice([100, 100000])
        rows.append(("wrap", [t, rng.choice([lo, hi, lo - 1, hi + 1, rng.randint(-lim, lim)]), lo, hi]))
        x, lo, hi = (rng.randint(-30000, 30000) for _ in range(3))
        if rng.random() < .7:
            lo, hi = min(lo, hi), max(lo, hi)
            x = rng.choice([x, lo, hi, lo - 1, hi + 1])
        if abs(x - lo) > 32767:
            lo, hi = x // 2, x // 2 + 3
        rows.append(("between", [rng.choice([0, 1]), x, lo, hi]))
        lo, hi = min(lo, hi), max(lo, hi)
        rows.append(("constrain", [rng.choice([0, 1, 2]), rng.choice([x, lo, hi, lo - 1, hi + 1]), lo, hi]))
        x, y = (rng.choice([rng.randint(-9999, 9999), 0, 1, -1]) for _ in range(2))
        y = rng.choice([x, y, y])
        rows.append(("minmax", [rng.choice([0, 1]), x, y]))
        rows.append(("diff", [rng.choice([0, 3, 4]), x, y]))
        rows.append(("diff", [1, abs(x) & 255, abs(y) & 255]))
        rows.append(("diff", [2, abs(x), abs(y)]))
        w = rng.choice([0, 1, 2, 7, 60, 1000, 65536, 70001, 200000])
        c = rng.choice([0, 5, -5, -100, 4000, 70000, -40000])
        v = rng.choice([c, c + w // 2, c - w // 2, c + w // 2 + 1, c - w // 2 - 1, rng.randint(-400000, 400000)])
        rows.append(("plateau", [v, w, c]))
        rows.append(("plateaus", [rng.randrange(6), rng.choice([v, rng.randint(-40, 140)])]))
        rows.append(("swap16", [some(16)]))
        rows.append(("combine", [some(16), some(16)]))
        n = rng.randint(0, 33)
        e = 1 << max(0, min(n, 31) - rng.randint(0, 1))
        v = rng.choice([e, e - 1, -e, -e - 1, 0, -1, rng.randint(-2147483647, 2147483647), rng.randint(-1000, 1000)])
        v = max(-2147483647, min(2147483647, v))
        rows.append(("ssat", [v, n]))
        rows.append(("usat", [v, n]))
        m = rng.choice([1, 1000, 4096, 65536, 2147483647])
        big = rng.choice([2147483647, -2147483647, rng.randint(-2147483647, 2147483647)])
        p = rng.choice([0, m, rng.randint(0, m)])
        if p in (0, m):
            x, y = big, rng.randint(-2147483647, 2147483647)
        elif m == 2147483647 or rng.random() < .2:
            x, y = rng.choice([big, -big]), rng.choice([big, rng.randint(-2147483647, 2147483647)])
        else:
            h = 1000000000 // m
            x, y = rng.randint(-h, h), rng.randint(-h, h)
        rows.append(("interp", [m, x, y, p]))
        rows.append(("finterp", [rng.randint(-999, 999), rng.randint(-999, 999), rng.randint(0, 16)]))
        a, b = rng.randint(-100, 100), rng.randint(-100, 100)
        if a == b:
            b += 1
        rows.append(("map", [rng.choice([a, b, rng.randint(-100, 100)]), a, b, rng.randint(-1000, 1000), rng.randint(-1000, 1000)]))
        b = a + rng.choice([1, 2, 4, 8, 16])
        rows.append(("fmap", [rng.randint(-1600, 1600), a, b, rng.randint(-100, 100), rng.randint(-100, 100)]))
        lo = rng.randint(-1000, 1000)
        rows.append(("random", [rng.randrange(3), lo, lo + rng.choice([0, 1, 2, 6, 1000])]))
        ex = rng.choice([0, 1, 127, 254, 255, 255, 255])
        rows.append(("finite", limbs(rng.getrandbits(1) << 31 | ex << 23 | rng.choice([0, 0, 1, 0x7fffff, 0x400000, rng.getrandbits(23)]))))
        w = rng.choice([8, 16, 32, 17, 0])
        n = rng.randint(1, 4)
        rows.append(("fields", [w] + [z for _ in range(n) for z in limbs(rng.choice([1 << rng.randrange(8 if w == 8 else 16 if w in (16, 17) else 32), some(8 if w == 8 else 16)]))]))
        rows.append(("visit", [rng.randrange(3), rng.randint(0, 50)]))
    rows += [("adiff", [i]) for i in range(3)]
    rng.shuffle(rows)
    return [[("new", [])] + rows[i:i + 250] for i in range(0, len(rows), 250)]


def neon(rng, thorough):
    out = []
    v = lambda: rng.choice([0, 1, -1, 8, rng.randint(-400, 400)])      # in 1/8
    for _ in range(400 if thorough else 80):
        sc = [("new", [])]
        for _ in range(40):
            op = rng.choice(["dupq", "load", "mul", "mla", "mla", "sub", "low", "high", "add", "lane", "max", "put", "get"])
            q = lambda: rng.randrange(3)
            if op == "dupq":
                a = [q(), v()]
            elif op == "load":
                a = [q(), v(), v(), v(), v()]
            elif op in ("mul", "sub", "max"):
                a = [q(), q(), q()]
            elif op == "mla":
                a = [q(), q(), q(), q()]
            elif op in ("low", "high"):
                a = [q(), q()]
            elif op == "add":
                a = [q(), q(), q()]
            elif op == "lane":
                a = [q(), rng.randrange(2)]
            elif op == "put":
                a = [q(), rng.randrange(4), v()]
            else:
                a = [q()]
            sc.append((op, a))
            if op == "mul" or op == "mla":   # keep them small
                sc.append(("clip", [a[0]]))
        sc += [("get", [i]) for i in range(3)] + [("lane", [i, j]) for i in range(3) for j in range(2)]
        out.append(sc)
    return out


PARTS = [
    Part("bits", "Bits", "bits.cc", gen, explore=False, echo=True, extra_src=["$REPO/util/math_tables.cc"]),
    Part("neon", "Neon", "neon.cc", neon, explore=False, extra_src=["$REPO/util/math_tables.cc"]),
]
