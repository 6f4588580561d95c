from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(500 if thorough else 80):
        cap = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 16])
        k = rng.choice([0, 0, 1, 2, 3])
        n = min(k, cap)
        sc = [("new", [cap] + [rng.randint(1, 99) for _ in range(n)])]
        v = 100
        for _ in range(rng.choice([20, 60])):
            v += 1
            op = rng.choice(["push", "push", "push", "pop", "insert", "insert", "erase", "erase_range", "resize",
                             "resize_ow", "resize_def", "push_ow", "set", "clear" if rng.random() < .2 else "push"])
            # n mirrors size only so that calls with preconditions (set, erase_range) stay inside them
            if op in ("push", "push_ow"):
                sc.append((op, [v])); n = min(n + 1, cap)
            elif op == "pop":
                sc.append((op, [])); n = max(n - 1, 0)
            elif op == "insert":
                i = rng.choice([rng.randint(0, n), n, 0, rng.randint(0, cap + 2)])
                own = n > 0 and rng.random() < .3  # the value is an element of the vector itself
                sc.append(("insert_own", [i, rng.randrange(n)]) if own else (op, [i, v])); n += n < cap and i <= n
            elif op == "erase":
                i = rng.choice([rng.randint(0, n), max(n - 1, 0), rng.randint(0, cap + 3)])
                sc.append((op, [i])); n -= i < n
            elif op == "erase_range":
                i, j = rng.randint(0, n), rng.randint(0, n)
                sc.append((op, [i, j])); n -= max(j - i, 0)
            elif op in ("resize", "resize_ow"):
                i = rng.choice([rng.randint(0, cap), cap, cap + 1, 100000, -1, -2])
                sc.append((op, [i, v])); n = min(i, cap) if i >= 0 else cap
            elif op == "resize_def":
                i = rng.choice([rng.randint(0, cap), cap, cap + 1, -1, -2])
                sc.append((op, [i])); n = min(i, cap) if i >= 0 else cap
            elif op == "set" and n:
                sc.append((op, [rng.randint(0, n - 1), v]))
            elif op == "clear":
                sc.append((op, [])); n = 0
        out.append(sc)
    out.append([("new", [300]), ("pushes", [3, 290]), ("insert", [1, 9]), ("insert", [280, 8]), ("erase", [270]), ("erase", [2]), ("erase_range", [3, 260]),
                ("resize", [299, 5]), ("push", [4]), ("push", [4]), ("pop", []), ("insert", [256, 77]), ("erase", [256]), ("set", [257, 6]), ("pushes", [50, 20]),
                ("erase_range", [256, 300]), ("push_ow", [1]), ("resize_ow", [300, 2]), ("erase", [299]), ("erase", [255]), ("pop", [])])
    out.append([("new", [70000]), ("resize", [65535, 3]), ("push", [4]), ("push", [5]), ("insert", [65536, 6]), ("push_ow", [7]), ("erase", [65535]), ("erase", [1]), ("insert", [1, 8]), ("pop", []), ("resize_def", [65540]), ("resize_ow", [65545, 2]),
                ("erase_range", [2, 65540]), ("pushes", [1, 70000]), ("push", [1]), ("erase_range", [65534, 65537]), ("pop", []), ("resize", [70001, 9]), ("insert", [0, 1]), ("clear", [])])
    return out


PARTS = [Part("fixed_vec", "FixedVec", "fixed_vec.cc", gen, dup=True),
         Part("fixed_vec_owner", "FixedVec", "fixed_vec.cc", gen, flags=["-DELEM=4"], explore=False, dup=True)]
