from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(600 if thorough else 120):
        k = rng.choice([0, 1, 2])
        n = rng.choice([1, 2, 3, 8, 8])
        sc = [("new", [k, n, rng.randint(0, 2)] if k < 2 else [2])]
        for _ in range(50):
            if k == 2:
                op = rng.choice(["p8", "p16", "p32", "u8", "u16", "u32", "raw", "see"])
                b = lambda m: rng.choice([0, 1, m, m // 2, rng.randint(0, m)])
                a = [b(255)] if op in ("p8", "u8") else [b(65535)] if op in ("p16", "u16") else [b(65535), b(65535)] if op in ("p32", "u32") else \
                    [rng.randint(0, 255) for _ in range(rng.randint(0, 20))] if op == "raw" else []
            else:
                op = rng.choice((["put"] if k == 0 else ["get"]) * 8 + ["reset", "see", "see", "poke"] + (["fill"] if k else []))
                a = [rng.randint(-999, 999)] if op in ("put", "fill") else [rng.randrange(n), rng.randint(-999, 999)] if op == "poke" else []
            sc.append((op, a))
        out.append(sc + [("see", [])])
    for p in (0, 1, 2):
        out.append([("new", [0, 300, p]), ("puts", [1, 255]), ("put", [901]), ("put", [902]), ("puts", [4, 42]), ("see", []), ("put", [903]), ("put", [904]), ("see", []), ("reset", []), ("put", [905]), ("see", []), ("puts", [6, 400]), ("see", [])])
        out.append([("new", [1, 300, p]), ("fill", [6])] + [("poke", [i, 500 + i]) for i in (0, 1, 254, 255, 256, 257, 299)] +
                   [("gets", [255]), ("get", []), ("get", []), ("gets", [50]), ("get", []), ("reset", []), ("get", []), ("see", [])])
    out.append([("new", [2]), ("raw", [i % 251 for i in range(700)]), ("p16", [5]), ("raw", [i % 249 for i in range(256)]), ("see", [])])
    big = [("at", [i]) for i in (0, 3, 255, 256, 463, 464, 65529, 65535, 65536, 65540, 65999)]
    out.append([("new", [0, 66000, 0]), ("puts", [1, 65530])] + [("put", [900 + i]) for i in range(12)] + big + [("puts", [5, 600]), ("put", [7])] + big + [("reset", []), ("put", [8])] + big)
    out.append([("new", [1, 66000, 0])] + [("poke", [i, 500 + i % 777]) for i in (0, 1, 5, 65535, 65536, 65537, 65999)] + [("gets", [1])] + [("gets", [13107])] * 5 + [("get", [])] * 5 + [("gets", [600]), ("get", []), ("reset", []), ("get", [])])
    out.append([("new", [2]), ("p8", [9]), ("rawpat", [65537]), ("p16", [513]), ("rawpat", [70000])] + [("at", [i]) for i in (0, 1, 65536, 65537, 65538, 65539, 65540, 65541, 135539)] + [("p32", [1, 2])])
    return out


PARTS = [Part("staging", "Staging", "staging.cc", gen, dup=True)]
