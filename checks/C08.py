from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 80):
        n = rng.choice([1, 2, 3, 4, 7, 16])
        sc = [("new", [n])]
        ok = rng.choice([1.0, .9, .6])
        fly, pend, v = False, 0, 0
        for _ in range(60):
            m = 0 if rng.random() > ok else 1
            if rng.random() < .04:
                sc.append(("huge", [m, rng.choice([256, 257, 65536, 65537, -1, -2, -3, -2147483648, 300])]))
            elif rng.random() < .6:
                k = rng.choice([1, rng.randint(1, n), n, n + 1, rng.randint(1, max(1, n - pend))])
                w = [(v + j) % 1000 for j in range(k)]
                v += k
                sc.append(("transmit", [m] + w))
                if pend + k <= n:
                    if fly:
                        pend += k
                    elif m == 1:
                        fly, pend = True, 0
            else:
                sc.append(("done", [m]))
                if fly:
                    fly = pend > 0 and m == 1
                    pend = pend if m == 0 else 0
        out.append(sc)
    w = lambda k, v: [(v + j) % 1000 for j in range(k)]
    out.append([("new", [300])] + [("transmit", [1] + w(1, 0)), ("transmit", [1] + w(255, 1)), ("transmit", [1] + w(1, 256)), ("transmit", [1] + w(45, 257)), ("transmit", [1] + w(43, 257)), ("transmit", [1] + w(1, 300)),
                ("done", [1]), ("transmit", [1] + w(300, 5)), ("huge", [1, 512]), ("huge", [1, 65536]), ("huge", [1, -1]), ("done", [0]), ("transmit", [1] + w(1, 5)), ("transmit", [1]), ("transmit", [1] + w(256, 3)), ("transmit", [1] + w(44, 3)), ("transmit", [1] + w(1, 3)), ("done", [1])])
    return out


PARTS = [Part("double_buf", "DoubleBuf", "double_buf.cc", gen)]
