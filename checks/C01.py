from conc import ConcPart, Job


def prod(rng, n):
    out, v = [], 10
    for _ in range(n):
        x = rng.random()
        if x < .75:
            v += 1
            out.append(("put", [v]))
        else:
            out.append((rng.choice(["num_free", "full"]), []))
    return out


def cons(rng, n):
    if rng.random() < .3:
        return [rng.choice([("get", []), ("get_move", []), ("skip", [rng.randint(1, 2)]), ("num_filled", [])]) for _ in range(n)]
    if rng.random() < .3:
        return [rng.choice([("get", []), ("get_move", []), ("keep", [rng.randint(0, 2)]), ("remove_first", [])]) for _ in range(n)]
    return [(rng.choice(["get"] * 4 + ["get_move"] * 3 + ["get_or_default", "remove_first", "remove_first", "num_filled",
                                                           "num_filled", "empty", "reset"]), []) for _ in range(n)]


def fixed_progs():
    P = lambda *v: [("put", [x]) for x in v]
    g, m, rf, nf, e, rs, d = (("get", []), ("get_move", []), ("remove_first", []), ("num_filled", []), ("empty", []),
                              ("reset", []), ("get_or_default", []))
    fr, fu = ("num_free", []), ("full", [])
    return [(P(1, 2, 3), [g, g, g]), (P(1, 2, 3), [m, m, nf]), (P(1, 2) + [fr, ("put", [3])], [rf, g, nf]),
            (P(1, 2, 3), [nf, rs, g]), (P(1, 2) + [fu, ("put", [3])], [e, d, m]), (P(1, 2, 3), [rf, rf, g]),
            (P(1, 2, 3, 4), [g, rs, m, nf]), (P(1, 2, 3), [nf, ("keep", [0]), g]), (P(1, 2, 3, 4), [("keep", [1]), g, m]),
            (P(1, 2, 3), [g, ("skip", [1]), m]), (P(1, 2, 3, 4), [("skip", [2]), g]), ([fr] + P(1) + [fr] + P(2) + [fu], [g, e, m])]


def jobs(rng, thorough, mode="sc"):
    out = []
    st = 2 if mode == "weak" else 0
    cfgs = [[0, 1, 0, 0], [0, 2, 0, 0], [1, 1, 0, 0], [1, 2, 0, 0], [1, 3, 0, 0], [0, 2, -1, 0], [1, 2, -2, 0], [0, 4, 0, 0],
            [0, 1, -1, 0]]
    for i, (p, c) in enumerate(fixed_progs()):
        for k in range(len(cfgs)) if thorough else (0, 1 + i % 4, 5 + i % 4):
            out.append(Job(cfgs[k], [p, c], mode, 4 if thorough else 3 if mode == "sc" else 2, st + thorough, 60000 if thorough else 6000))
    # discarding by position, with elements in the FIFO already
    g, m = ("get", []), ("get_move", [])
    for c in ([0, 2, 0, 2], [1, 2, 0, 2], [0, 4, 0, 2], [1, 3, 0, 2]) + (([0, 1, 0, 1], [0, 2, -1, 2], [1, 3, 0, 3]) if thorough else ()):
        for p in ([g, ("keep", [0]), m], [("keep", [1]), g, m], [g, ("skip", [1]), m], [m, ("keep", [1]), g]):
            out.append(Job(c, [[("put", [v]) for v in (11, 12, 13)], p], mode, 4 if thorough else 2, st + thorough, 60000 if thorough else 3000))
    for i in range(120 if thorough else 16):
        n = rng.choice([3, 4, 6, 10, 16])
        c = rng.choice(cfgs)
        c = c[:3] + [rng.randint(0, c[1]) if rng.random() < .5 else 0]
        out.append(Job(c, [prod(rng, n), cons(rng, n)], mode, 2, st, 4000 if thorough else 300,
                       4000 if thorough else 400, rng.randint(1, 10 ** 6)))
    return out


PARTS = [ConcPart("spsc_sched", "spsc_conc.cc", "SpscLin", jobs)]
