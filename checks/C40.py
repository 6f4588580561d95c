from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 90):
        n = rng.choice([1, 2, 3, 4, 5, 8])
        val = lambda: rng.choice([0, 1, -1, 100, rng.randint(-1000, 1000)])
        q = rng.choice([16, 16, 1024, 4096])
        sc = [("new", [0, n, q]), ("load", [val() for _ in range(n)])]
        for _ in range(40):
            x = rng.random()
            far = rng.choice([1, 4, 40])
            if x < .1:
                sc.append(("put", [rng.randrange(n), val(), rng.randrange(3)]))
            elif x < .2:
                sc.append(("get", [rng.randrange(n)]))
            elif x < .35:
                sc.append(("index", [rng.choice([rng.randrange(q * n), q * rng.randrange(n), q * rng.randint(1, n) - 1])]))
            elif x < .5:
                sc.append(("indexw", [rng.choice([rng.randint(-q * n * far, q * n * far), q * rng.randint(-n * far, n * far), q * rng.randint(-n * far, n * far) + rng.choice([-1, 1])])]))
            elif x < .7:
                sc.append((rng.choice(["interp", "closest"]), [rng.choice([rng.randint(0, 4 * q), 4 * q, 0, 4 * q - 1])]))
            else:
                sc.append((rng.choice(["interpw", "closestw"]), [rng.choice([rng.randint(-4 * q * far, 4 * q * far), 4 * q * rng.randint(-far, far), q * rng.randint(-far, far), q * rng.randint(-far, far) + rng.choice([-1, 1])])]))
        out.append(sc)
    for _ in range(200 if thorough else 50):
        n = rng.choice([2, 3, 5, 6, 9])
        q = rng.choice([16, 1024, 4096])
        sc = [("new", [1, n, q])]
        for _ in range(2):
            w = rng.choice([1, 2, 4, 8, 16])
            lo = rng.choice([0, -w, -w // 2, rng.randint(-50, 50)])
            sc.append(("fill", [lo, lo + w] + [rng.choice([0, 1, -7, rng.randint(-500, 500)]) for _ in range(n)]))
            for _ in range(20):
                sc.append((rng.choice(["look", "call"]), [rng.choice([rng.randint(q * lo - 20, q * (lo + w) + 20), q * lo, q * (lo + w), q * lo + q * w * rng.randint(0, n - 1) // (n - 1) + rng.choice([-1, 0, 1]), rng.randint(-9999, 9999)])]))
        out.append(sc)
    # fine fractions (exact in double), and just below an element
    for _ in range(40 if thorough else 12):
        q = 1 << 18
        sc = [("new", [0, 4, q]), ("load", [rng.randint(-900, 900) for _ in range(4)])]
        for _ in range(40):
            e = rng.choice([-1, 0, 1, -2, 3, rng.randint(-9, 9)])
            op = rng.choice(["index", "indexw", "interp", "closest", "interpw", "closestw"])
            k = {"index": q, "indexw": q}.get(op, 4 * q)
            x = k * rng.randint(1, 3) if op in ("index",) else (k * 3 * rng.randint(1, 3) // 9 if op in ("interp", "closest") else k * rng.randint(-8, 8) // 4)
            sc.append((op, [max(0, x + e) if op in ("index", "interp", "closest") else x + e]))
        out.append(sc)
    for _ in range(40 if thorough else 12):
        n, q = rng.choice([1, 2, 3, 5, 8]), 65536
        sc = [("new", [0, n, q]), ("load", [rng.randint(-999, 999) for _ in range(n)])]
        for _ in range(30):
            d = 4 * q // n if 4 * q % n == 0 else 4 * q
            sc.append(rng.choice([("closestw", [d * rng.randint(-4, 4) + rng.randint(-2, 2)]), ("closest", [min(4 * q, max(0, 4 * q * rng.randint(0, max(1, n - 1)) // max(1, n - 1) + rng.randint(-3, 3)))])]))
        out.append(sc)
    # large arrays and tables, far indices
    for n, q in ((300, 16), (66000, 16)):
        for _ in range(3):
            sc = [("new", [0, n, q]), ("pat", [])]
            for _ in range(40):
                i = rng.choice([0, 1, 254, 255, 256, 257, n - 2, n - 1, 65534 % n, 65535 % n, 65536 % n, rng.randrange(n)])
                f = rng.choice([0, 1, 8, 15])
                w = rng.choice([0, 0, 1, -1, 2, -3])
                sc.append(rng.choice([("get", [i]), ("index", [q * i + f]), ("indexw", [q * (i + w * n) + f]),
                                      ("interp", [rng.randint(0, 4 * q)]), ("interpw", [rng.randint(-4 * q, 8 * q)]), ("closest", [rng.randint(0, 4 * q)]), ("closestw", [rng.randint(-4 * q, 8 * q)])]))
            if n > 65536:
                sc += [("closest", [4 * q]), ("closest", [4 * q - 1]), ("closestw", [4 * q - 1]), ("closestw", [-1]), ("indexw", [-3]), ("indexw", [-q * 300 - 5]), ("indexw", [-q * 65600 - 9]), ("interp", [4 * q - 1]), ("interpw", [-1])]
            out.append(sc)
    for n in (1, 3, 5, 8):
        out.append([("new", [0, n, 16]), ("load", [i * i - 9 for i in range(n)])] + [("indexw", [16 * (s * (k + i)) + 5]) for k in (65536, 70000, 65535 * n, 100000) for i in (0, 1, 2) for s in (1, -1)])
    out.append([("new", [0, 300, 16]), ("load", [i * 7 % 311 for i in range(300)])] + [("put", [i, -i, i % 3]) for i in (0, 43, 44, 255, 256, 299)] + [("get", [i]) for i in (0, 43, 44, 45, 254, 255, 256, 298, 299)])
    for n in (257, 131073):
        for _ in range(4):
            lo = rng.randint(-3, 3)
            w = rng.choice([1, 2])
            q = rng.choice([64, 1024]) if n < 300 else 64   # at * (n - 1) stays small
            sc = [("new", [1, n, q]), ("fillpat", [lo, lo + w])]
            for _ in range(40):
                sc.append((rng.choice(["look", "call"]), [rng.randint(q * lo - 3, q * (lo + w) + 3)]))
            out.append(sc)
    return out


def functions(rng, thorough):
    def batch(op, rows):
        rows = list(rows)
        return [[("new", [])] + [(op, list(r) if isinstance(r, (tuple, list)) else [r]) for r in rows[i:i + 300]] for i in range(0, len(rows), 300)]
    out = []
    for t in range(6):
        out += batch("entry", [(t, i) for i in range(2048) if thorough or i % 16 == 0 or i in (1, 2047, 1023, 1025) or rng.random() < .3])
    k = 20 if thorough else 4
    out += batch("sin", [(f, rng.randint(-700, 700)) for f in range(5) for _ in range(60 * k)])
    out += batch("sin", [(f, x) for f in range(5) for x in range(-72, 73, 8)])
    out += batch("sin", [(5, x) for x in range(0, 65)])
    out += batch("tan", [(f, rng.randint(-640, 640)) for f in (0, 1) for _ in range(40 * k)])
    out += batch("exp", [(0, rng.randint(-110 * 1024, 120 * 1024)) for _ in range(60 * k)] + [(0, x * 512) for x in range(-200, 240)])
    out += batch("exp", [(1, rng.randint(-1100, 1100)) for _ in range(30 * k)] + [(1, x) for x in (0, 1, -1, 1023, 1024, 1025, -1023, -1024, -1025, 5000, -5000)])
    out += batch("far", [0, 1, 2, 3])
    out += batch("freq", [rng.choice([rng.randint(20, 20000), rng.randint(20, 200), rng.randint(-100, 30000)]) for _ in range(40 * k)] + [0, 19, 20, 21, 20000, 20001, 10000])
    return out


PARTS = [
    Part("tables", "Lut", "lut.cc", gen, dup=True),
    Part("functions", "MathFns", "mathfns.cc", functions, explore=False, echo=True, extra_src=["$REPO/util/math_tables.cc"]),
]
