from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 70):
        kind, n = rng.randint(0, 1), rng.choice([1, 2, 4, 8, 16])
        sc = [("new", [kind, n])]
        cnt, h = 0, 0
        bias = .6
        for _ in range(rng.choice([30, 90])):
            if rng.random() < .06:
                bias = rng.choice([.2, .5, .8])
            x = rng.random()
            if x < bias:
                sc.append(("put", [rng.randint(1, 120)]))
                h, cnt = (h + 1) % n, min(n, cnt + 1)
            elif x < .92:
                op = rng.choice(["get", "get", "remove_first", "first"])
                sc.append((op, []))
                if op != "first":
                    cnt = max(0, cnt - 1)
            elif x < .94:
                sc.append(("reset", []))
                h, cnt = (h - cnt) % n, 0
            elif x < .96:
                sc.append(("fill_val", [rng.randint(0, 120)]))
            elif x < .98:
                sc.append(("fill_arr", [rng.randint(0, 120) for _ in range(n)]))
            elif cnt < n:
                k = rng.randint(0, n - 1)
                sc.append(("set_head", [k]))
                cnt, h = (k - (h - cnt)) % n, k
        out.append(sc)
    for kind in (0, 1):
        sc = [("new", [kind, 512])]
        for i in range(1100):
            sc.append(("put", [i % 120 + 1]) if kind or i > 4 else ("get", []))
            if i % 5 == 0 or i > 1000:
                sc.append(("get", []))
        out.append([sc[0]] + [x for x in sc[1:]] if kind else [sc[0]] + sc[1:60])
    for kind in (0, 1):
        sc = [("new", [kind, 512])]
        for _ in range(6):
            sc += [("puts", [rng.randint(1, 200), rng.choice([511, 512, 513, 300, 1500])]), ("gets", [rng.choice([0, 1, 256, 300])]), ("put", [3]), ("remove_first", []), ("get", [])]
        out.append(sc + [("gets", [512]), ("set_head", [260]), ("get", []), ("reset", []), ("puts", [1, 70000]), ("gets", [3])])
    for kind in (0, 1):
        out.append([("new", [kind, 131072]), ("puts", [7, 65540]), ("gets", [3]), ("puts", [9, 65530]), ("gets", [200]), ("set_head", [65541]), ("gets", [5]), ("puts", [3, 131080]), ("gets", [2]), ("put", [4]), ("remove_first", []), ("get", []),
                    ("reset", []), ("set_head", [70000]), ("get", []), ("puts", [1, 140000]), ("get", [])])
    return out


def gen_owner(rng, thorough):
    """fill_buffer(array) copies bytes, so it is for trivially copyable elements only; set_head() exposes slots
    again, whose contents are unspecified once they have been read (they might have been moved from)"""
    return [[y for x in sc if x[0] != "fill_arr" for y in ([("fill_val", [7]), x] if x[0] == "set_head" else [x])]
            for sc in gen(rng, thorough)]


PARTS = [Part("ring_int", "Ring", "ring.cc", gen, dup=True),
         Part("ring_byte", "Ring", "ring.cc", gen, flags=["-DELEM=1"], explore=False, dup=True),
         Part("ring_struct", "Ring", "ring.cc", gen, flags=["-DELEM=2"], explore=False, dup=True),
         Part("ring_owner", "Ring", "ring.cc", gen_owner, flags=["-DELEM=4"], explore=False, dup=True)]
