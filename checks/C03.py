from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 60):
        dyn = rng.random() < .5
        n = rng.choice([1, 2, 3, 4, 5, 7, 8, 13, 16]) if dyn else rng.choice([1, 2, 4, 8, 16])
        pow2 = n & (n - 1) == 0
        contents = []
        kind = rng.random()
        w0 = r0 = base = 0
        if rng.random() < .4:
            base = rng.randint(1, 5)
            w0 = -rng.randint(0, 20)
            r0 = w0 - rng.randint(0, n)
        elif kind < .3:
            w0 = rng.randint(0, n)
        elif kind < .6 and pow2:
            w0 = -rng.randint(1, 20)
            r0 = w0 - rng.randint(0, n)
        elif kind < .8 and not dyn:
            contents = [rng.randint(1, 99) for _ in range(n)]
            w0 = rng.choice([0, n, rng.randint(0, n)])
        sc = [("new", [int(dyn), n, w0, r0, base] + contents)]
        w, r, stale, hist = w0, r0, False, not dyn or True
        v = 0
        bias = rng.choice([.3, .5, .7])
        for _ in range(rng.choice([20, 80])):
            if rng.random() < .05:
                bias = rng.choice([.2, .5, .8])
            v = (v + 1) % 200 + 1
            x = rng.random()
            if x < bias:
                sc.append(("put", [v]))
                w += w - r < n
            elif x < .93:
                op = rng.choice(["get", "get", "get_move", "get_or_default", "remove_first"])
                sc.append((op, []))
                r += w > r
            elif x < .945:
                sc.append(("reset", []))
                r = w
            elif x < .97 and not stale:
                k = rng.randint(0, n)
                sc.append(("set_read_offset", [k]))
                if base or w < 0 or k <= w:
                    r = w - k
            elif x < .98 and not stale:
                k = rng.randint(r, w)
                sc.append(("set_read_pos", [k]))
                r = k
            elif x < .985 and not stale:
                k = rng.randint(r, r + n)
                sc.append(("set_write_pos", [k]))
                w = k
            elif dyn and (base or pow2 == (w0 >= 0 and pow2) or w >= 0):
                m = rng.choice([1, 2, 3, 4, 5, 8, 9, 16])
                if w < 0 and not base and m & (m - 1):
                    continue
                sc.append(("resize", [m]))
                if m != n:
                    n, r, stale = m, w, True
        out.append(sc)
    for dyn, n in ((0, 512), (1, 512), (1, 300)):
        sc = [("new", [dyn, n, 0, 0, 0])]
        for _ in range(6):
            sc += [("puts", [rng.randint(1, 200), rng.choice([n - 1, n, n + 1, 200])]), ("gets", [rng.choice([1, 255, 256, n, n + 3])]), ("put", [3]), ("remove_first", []), ("get_or_default", [])]
        sc += [("gets", [n]), ("puts", [9, n])] + sum(([("set_read_offset", [k]), ("get", [])] for k in (0, 1, 254, 255, 256, 257, n - 1, n)), [])
        out.append(sc + ([("resize", [400]), ("puts", [5, 500]), ("gets", [390]), ("puts", [1, 300]), ("resize", [70000]), ("puts", [1, 70001]), ("gets", [66000]), ("get", [])] if dyn else []))
    big = ("gets", [131070])
    out.append([("new", [0, 131072, 0, 0, 0]), ("puts", [1, 131073]), ("put", [1]), ("gets", [66000]), ("puts", [7, 65999]), ("get", []), ("gets", [70000]), ("reset", []), ("get", []),
                ("puts", [3, 131072])] + sum(([("set_read_offset", [k]), ("get", [])] for k in (0, 5, 65535, 65536, 65541, 131071, 131072)), []))
    return out


def gen_owner(rng, thorough):
    """without the moves that would read an element again: reading may move an owner out"""
    moves = ("set_read_offset", "set_write_pos")
    return [[("reset", []) if x[0] in moves else x for x in sc if x[0] != "set_read_pos"] for sc in gen(rng, thorough)]


PARTS = [Part("fifo_int", "Fifo", "fifo.cc", gen),
         Part("fifo_byte", "Fifo", "fifo.cc", gen, flags=["-DELEM=1"], explore=False),
         Part("fifo_struct", "Fifo", "fifo.cc", gen, flags=["-DELEM=2"], explore=False),
         Part("fifo_owner", "Fifo", "fifo.cc", gen_owner, flags=["-DELEM=4"], explore=False)]
