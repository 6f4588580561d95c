from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 60):
        cap = rng.choice([1, 2, 3, 4, 5, 7, 8, 13, 16])
        k = rng.choice([0, 0, 1, 2, 3])
        sc = [("new", [cap] + [rng.randint(-9, 9) for _ in range(min(k, cap))])]
        bias = rng.choice([0.3, 0.5, 0.7, 0.9])
        for _ in range(rng.choice([20, 80])):
            if rng.random() < 0.05:
                bias = rng.choice([0.2, 0.5, 0.9])
            if rng.random() < bias:
                sc.append(("push", [rng.randint(-1000, 1000)]))
            else:
                sc.append((rng.choices(["pop", "popz", "look", "clear"], [6, 5, 1, 0.3])[0], []))
        out.append(sc)
    sc, n = [("new", [300])], 0
    for _ in range(12):
        k = rng.choice([1, 299, 300, 301, 256, 700, 70000])
        sc.append(("pushes", [rng.randint(1, 200), k]))
        n = min(300, n + k)
        k = rng.choice([0, 1, 255, 256, 257, n, rng.randint(0, n)])
        k = min(k, n)
        sc.append(("pops", [k]))
        n -= k
        sc.append(("push", [7]))
        n = min(300, n + 1)
    out.append(sc)
    for m in (1, 2, 250, 254, 255, 256, 257, 280, 299):       # every pop count from a bottom at every side of 256
        out.append([("new", [300]), ("pushes", [rng.randint(1, 99), 300 + m]), ("pops", [1]), ("look", []), ("push", [5]), ("push", [6]), ("pops", [40]), ("pushes", [9, 20]), ("pops", [280]), ("pop", []), ("popz", [])])
    out.append([("new", [70000]), ("pushes", [1, 70000]), ("pushes", [1, 65540]), ("pops", [2]), ("push", [9]), ("pop", []), ("pops", [300]), ("pushes", [8, 300]), ("push", [3]), ("push", [3]), ("popz", [])])
    return out


PARTS = [Part("circ_stack", "CircStack", "circ_stack.cc", gen, dup=True),
         Part("circ_stack_owner", "CircStack", "circ_stack.cc", gen, flags=["-DELEM=4"], explore=False, dup=True)]
