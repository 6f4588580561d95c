from conc import ConcPart, Job
from vt import Part


def cdiv(a, b):
    return abs(a) // abs(b) * (1 if (a >= 0) == (b > 0) else -1)


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 80):
        kind, typ = rng.randint(0, 2), rng.randint(0, 1)
        nums = [1, 2, 4, 8, 64, 256] if typ else [1, 2, 3, 5, 7, 100, 256]
        num = 4 if kind == 0 else rng.choice(nums)
        sc = [("new", [kind, typ, num])]
        cur = step = tgt = 0
        left = 0
        for _ in range(60):
            x = rng.random()
            if x < .3:
                n = rng.choice(nums + [0]) if kind == 1 else num
                v = rng.randint(-30000, 30000) if not typ else cur + rng.randint(-50, 50) * max(n, 1)
                if abs(v) > 60000:
                    v = cur
                tgt = v
                if n:
                    step, left = cdiv(v - cur, n), n
                else:
                    left = 0
                sc.append(("set", [v, n] if kind == 1 else [v]))
            elif x < .85 and left > 0:
                k = rng.choice([1, left, rng.randint(1, left)])
                k = min(k, 30)
                for _ in range(k):
                    sc.append(("next", []))
                cur += step * k
                left -= k
            elif x < .95 and kind == 1:
                sc.append(("snap", []))
                cur, left = tgt, 0
            elif kind == 2:
                num = rng.choice(nums)
                sc.append(("setnum", [num]))
                left = 0
        out.append(sc)
    return out


def fgen(rng, thorough):
    out = []
    for _ in range(300 if thorough else 60):
        n, w = rng.choice([(1, 1), (2, 1), (3, 1), (2, 4), (8, 2)])
        sc = [("new", [n, w])]
        if rng.random() < .6:
            sc.append(("setnum", [rng.choice([0, 1, 5, 20, 255, 256, 257, 300, 65536, 70000])]))
        per = rng.choice([1, 3, 10, 40])
        for _ in range(rng.choice([5, 12])):
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                sc.append(("mark", []))
            for _ in range(rng.choice([1, 1, 2])):
                sc.append(("read", [rng.choice([0, 4095, rng.randint(0, 4095)]) for _ in range(n)]))
            for _ in range(max(0, per + rng.choice([0, 0, 1, -1, 5, -per]))):
                sc.append(("update", []))
            if rng.random() < .3:
                sc.append(("updates", [rng.choice([1, 100, 200, 254, 255, 256, 257, 300, 65000, 65535, 65536, 70000])]))
        out.append(sc)
    n = 300
    rd = lambda: ("read", [rng.choice([0, 4095, rng.randint(0, 4095)]) for _ in range(n)])
    out.append([("new", [n, 2]), ("setnum", [3]), ("mark", []), rd(), ("update", []), ("updates", [2]), ("mark", []), rd(), ("update", []), ("mark", []), rd(), ("update", []), ("updates", [5])])
    return out


def jobs(rng, thorough):
    def w(v):
        return ("write", [v])
    M, R = ("mark", []), ("read", [])
    fixed = [([w(1), M], [R, R]), ([w(1), M, w(2), M], [R, R]), ([w(1), w(2), M], [R, R]), ([w(1), M, w(2), M, w(3), M], [R, R, R]),
             ([w(1), M, w(2)], [R, R]), ([w(1), M, M], [R, R, R])]
    out = []
    for p in fixed:
        for mode in ("sc", "weak"):
            out.append(Job([0], [list(p[0]), list(p[1])], mode, 4 if thorough else 3, 3 if thorough else 2, 60000 if thorough else 3000, 2000 if thorough else 300, rng.randint(1, 10 ** 6)))
    for k in range(40 if thorough else 8):
        p0, v = [], 0
        for _ in range(rng.choice([4, 8])):
            v += 1
            p0 += rng.choice([[w(v), M], [w(v)], [M]])
        out.append(Job([0], [p0, [R] * rng.choice([3, 6])], rng.choice(["sc", "weak"]), 2, 1, 4000 if thorough else 300, 3000 if thorough else 400, rng.randint(1, 10 ** 6)))
    return out


PARTS = [Part("interp", "Interp", "interp.cc", gen, dup=True), Part("finterp", "FInterp", "finterp.cc", fgen),
         ConcPart("ready", "ready_conc.cc", "ReadyLin", jobs)]
