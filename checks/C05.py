from vt import Part


def gen_pool(rng, thorough):
    out = []
    for _ in range(300 if thorough else 60):
        n = rng.choice([1, 2, 3, 4, 5, 8])
        sc = [("new", [n, rng.randint(0, 3)])]
        bias = rng.choice([.4, .5, .7])
        for i in range(60):
            if rng.random() < bias:
                sc.append(("create", []) if rng.random() < .6 else ("create_ow", [i + 1]))
            elif rng.random() < .3:
                sc.append(("write", [rng.randint(0, n - 1), i + 100]))
            elif rng.random() < .1:
                sc.append(("destroy_foreign", [rng.randint(0, 1)]))
            else:
                sc.append(("destroy", [rng.randint(0, n - 1)]))
        out.append(sc)
    out.append([("new", [300]), ("creates", [305]), ("create", [])] + [("destroy", [i]) for i in (0, 299, 255, 256, 257, 44)] + [("creates", [300]), ("destroy", [44]), ("create_ow", [7]), ("create", [])])
    return out


def gen_arena(rng, thorough):
    out = []
    for _ in range(300 if thorough else 60):
        n = rng.choice([0, 1, 7, 8, 64, 100, 1000, 4096, 65535, 65537, 200000])
        sc = [("new", [n])]
        left = n
        for _ in range(30):
            x = rng.random()
            if x < .05:
                sc.append(("reset", [])); left = n
                continue
            k = left if x < .15 else left + 1 if x < .2 else -rng.randint(1, 9) if x < .3 else rng.randint(0, max(n // 8, 2))
            sc.append(("alloc", [k]))
            if 0 <= k <= left:
                left -= k
        out.append(sc)
    return out


PARTS = [Part("pool", "Pool", "pool.cc", gen_pool), Part("arena", "Arena", "arena.cc", gen_arena, dup=True)]
