from conc import ConcPart, Job
from vt import Part

C, D, ST, FE, CL = ("create", []), ("destroy_mine", []), ("store", [7]), ("fetch", []), ("clear", [])


def use(v):
    return [("create", []), ("store", [v]), ("fetch", []), ("destroy_mine", [])]


def num(i):
    return ("destroy", [i])


def is_used(i):
    return ("is_used", [i])


def fixed():
    """(configuration, programs): the pool must be at least as large as the slots taken at the start."""
    return [
        ([1], [use(1), use(2)]), ([1], [use(1), use(2), use(3)]), ([2], [use(1), use(2), use(3)]),
        ([2, 1], [[D, C, D], [C, D, C], [C, D]]), ([2, 1, 1], [[D, C], [D, C], [C]]),
        ([2, 2], [[D, D], [C, C], [C]]), ([3, 1, 1], [[D, C], [D, C], [C, C]]),
        ([1, 1], [[num(0)], [num(0)], [C]]), ([2, 2], [[num(0), num(1)], [num(1), num(0)], [C]]),
        ([2], [[C, is_used(0), D], [is_used(0), is_used(1), C], [C, D]]),
        ([2], [use(1) + use(2), use(3) + use(4)]),
        ([1, 1], [[D, is_used(0)], [C, is_used(0)], [C, D]]),
        ([2, 1], [[is_used(5), num(7), D], [C, is_used(2), D]]),
        # the owner of all slots clears the pool while another thread waits for one
        ([1, 1], [[ST, CL], [C, ("store", [3]), FE, D]]), ([1, 1], [[ST, CL, C, ("store", [5]), FE], [C, ("store", [3]), FE]]),
        ([2, 2], [[ST, CL], [C, ("store", [3]), FE]]), ([3, 3], [[CL], [C, ("store", [3]), FE, D]]), ([2, 2], [[CL, C], [C, FE]]),
        # a creator that goes past slot 0 while it is freed and another creator takes slot 1
        ([2, 1], [[D], [C], [C]]),
    ]


def jobs(rng, thorough):
    out = []
    for cfg, progs in fixed():
        for mode in ("sc", "weak"):
            data = any(op == "store" for p in progs for op, _ in p)
            if mode == "weak" and not data:
                continue
            out.append(Job((cfg + [0] * 4)[:5], progs, mode, 4 if thorough else 2 if len(progs) > 2 else 3, 1 if mode == "weak" else 1,
                           60000 if thorough else 5000, 2000 if thorough else 300, rng.randint(1, 10 ** 6)))
    for k in range(100 if thorough else 14):
        n = rng.choice([1, 2, 2, 3, 4])
        nt = rng.choice([2, 3, 3])
        data = rng.random() < .6
        progs = []
        for t in range(nt):
            p = []
            for _ in range(rng.choice([2, 3, 5, 8])):
                if data:
                    p += rng.choice([[C, ("store", [rng.randint(1, 90)]), FE], [FE, D], [D], [C], [D, C]])
                else:
                    p.append(rng.choice([C, C, D, num(rng.randint(0, n - 1)) if k % 3 == 0 else D, is_used(rng.randint(0, n))]))
            progs.append(p)
        if any(op == "destroy" for p in progs for op, _ in p):
            progs = [[(o, a) if o != "destroy_mine" else ("destroy", [rng.randint(0, n - 1)]) for o, a in p] for p in progs]
        mode = "weak" if data and rng.random() < .6 else "sc"
        out.append(Job([n, 0, 0, 0, 0], progs, mode, 2, 1, 4000 if thorough else 300, 4000 if thorough else 400, rng.randint(1, 10 ** 6)))
    return out


def gen(rng, thorough):
    out = []
    for _ in range(300 if thorough else 60):
        n = rng.choice([1, 2, 3, 5])
        sc = [("new", [n])]
        for _ in range(40):
            x = rng.random()
            i = rng.randint(0, n + 1)
            if x < .4:
                sc.append(("create", []))
            elif x < .7:
                sc.append(("destroy", [i]))
            elif x < .85:
                sc.append(("store", [rng.randint(0, n - 1), rng.randint(1, 99)]))
            elif x < .97:
                sc.append(("is_used", [i]))
            else:
                sc.append(("clear", []))
        out.append(sc)
    i300 = (0, 43, 44, 254, 255, 256, 257, 299)
    out.append([("new", [300]), ("creates", [305])] + [("store", [i, i % 200 + 1]) for i in i300] + [("destroy", [i]) for i in i300 + (300, 556)] +
               [("is_used", [i]) for i in i300 + (300,)] + [("create", []), ("create", []), ("destroy", [298]), ("clear", []), ("creates", [300]), ("destroy", [256])])
    return out


PARTS = [ConcPart("pool_sched", "pool_conc.cc", "PoolLin", jobs, hb=True),
         Part("ts_pool", "TsPool", "ts_pool.cc", gen),
         Part("ts_pool_byte", "TsPool", "ts_pool.cc", gen, flags=["-DELEM=1"], explore=False),
         Part("ts_pool_owner", "TsPool", "ts_pool.cc", gen, flags=["-DELEM=4"], explore=False)]
