from vt import Part


def ext(rng, m):
    a, b = sorted([rng.randint(-m, m), rng.randint(-m, m)])
    if rng.random() < .1:
        b = a
    return a, b


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 80):
        sc = [("new", [0])]
        for _ in range(60):
            x = rng.random()
            if x < .4:
                m = rng.choice([3, 10, 1000, 1000000])
                l1, r1 = ext(rng, m)
                t1, b1 = ext(rng, m)
                l2, r2 = ext(rng, m)
                t2, b2 = ext(rng, m)
                k = rng.random()
                if k < .1:
                    l2, r2 = r1, r1 + rng.randint(0, 5)
                elif k < .2:
                    l2, r2 = r1 + 1, r1 + 5
                elif k < .3:
                    l2, r2 = l1 - 5, l1 - rng.randint(0, 1)
                elif k < .4:
                    t2, b2 = b1 + rng.randint(0, 1), b1 + 5
                elif k < .5:
                    t2, b2 = t1 - 5, t1 - rng.randint(0, 1)
                elif k < .6:
                    l2, r2, t2, b2 = l1 - 1, r1 + 1, t1 - 1, b1 + 1
                sc.append(("rects", [l1, t1, r1, b1, l2, t2, r2, b2]))
            elif x < .47:
                m = rng.choice([1000, 1000000])
                l, r = ext(rng, m)
                t, b = ext(rng, m)
                sc.append(("rectc", [l, t, r, b]))
            elif x < .54:
                m = rng.choice([1000, 1000000])
                sc.append(("rect", [rng.randint(-m, m), rng.randint(-m, m), rng.randint(0, m), rng.randint(0, m)]))
            else:
                ty = rng.choice([0, 0, 1, 2, 3, 4, 5])
                lo, hi = (0, 255) if ty == 1 else (-3, 3) if rng.random() < .3 else (-100, 100) if rng.random() < .7 else (-16000, 16000)
                if hi == 16000 and ty == 3:
                    lo, hi = -1000, 1000   # exact in float
                n = rng.choice([3, 4, 5, 6, 8, 12])
                if rng.random() < .5:      # a convex polygon: points of a circle in order, perhaps dented
                    import math
                    cx, R = ((lo + hi) // 2), (hi - lo) // 2
                    ph = rng.random() * 6.28
                    angs = sorted(rng.random() * 6.28 for _ in range(n))
                    p = [(int(cx + R * .99 * math.cos(z + ph)), int(cx + R * .99 * math.sin(z + ph))) for z in angs]
                    if rng.random() < .4:
                        k = rng.randrange(n)
                        p[k] = (cx, cx)
                    if rng.random() < .3:   # repeated and collinear points
                        k = rng.randrange(n)
                        p.insert(k, p[k])
                    if rng.random() < .5:
                        p.reverse()
                else:
                    p = [(rng.randint(lo, hi), rng.randint(lo, hi)) for _ in range(n)]
                sc.append(("poly", [ty] + [v for q in p for v in q]))
        out.append(sc)
    # many vertices: convex (edges are the vectors of a small square in order of angle), or with one dent near the end
    import math
    for _ in range(16 if thorough else 6):
        m = rng.choice([12, 13, 14])
        vs = [(x, y) for x in range(-m, m + 1) for y in range(-m, m + 1) if math.gcd(x, y) == 1]
        vs.sort(key=lambda v: math.atan2(v[1], v[0]))
        q, pts = (0, 0), []
        for v in vs:
            pts.append(q)
            q = (q[0] + v[0], q[1] + v[1])
        n = len(pts)
        sc = [("new", [0])]
        for k in (None, n - 1, n - 2, rng.randrange(257, n - 2), rng.randrange(0, 200)):
            w = list(pts)
            if k is not None:
                w[k] = (sum(x for x, _ in w) // n, sum(y for _, y in w) // n)
            if rng.random() < .3:
                w.reverse()
            sc.append(("poly", [rng.choice([0, 2, 3, 4, 5])] + [c for z in w for c in z]))
        out.append(sc)
    return out


PARTS = [Part("geometry", "Geometry", "geometry.cc", gen)]
