from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 80):
        sc = [("new", [rng.choice([1, 2, 3, 4, 6, 8])])]
        for i in range(rng.choice([15, 50])):
            op = rng.choices(["set", "insert", "find", "cget", "erase", "clear"], [4, 4, 3, 2, 3, .3])[0]
            sc.append((op, [rng.randint(-2, 7)] + ([i + 100] if op in ("set", "insert") else [])))
        out.append(sc)
    out.append([("new", [300]), ("inserts", [1000, 1, 299])] + [(o, [k] + ([5] if o in ("set", "insert") else [])) for o, k in (
        ("insert", 1255), ("set", 1256), ("find", 1298), ("cget", 1257), ("erase", 1255), ("find", 1256), ("erase", 1000), ("insert", 7), ("set", 8), ("set", 9),
        ("find", 9), ("insert", 10), ("find", 7), ("find", 8), ("erase", 1298), ("find", 1297), ("set", 1254), ("set", 11), ("set", 12))] + [("clear", [0]), ("inserts", [5, 9, 302]), ("find", [304]), ("find", [260]), ("erase", [260])])
    return out


def gen_big(rng, thorough):     # positions beyond 16 bits
    return [[("new", [65540]), ("inserts", [1000, 1, 65539]), ("insert", [7, 5]), ("insert", [8, 5]), ("set", [9, 5]), ("find", [66538]), ("find", [9]), ("find", [66536]), ("set", [66537, 6]), ("cget", [66537]),
             ("erase", [66536]), ("find", [66538]), ("cget", [9]), ("erase", [1001]), ("insert", [66536, 2]), ("find", [66536]), ("erase", [9]), ("erase", [66538]), ("set", [3, 3]), ("find", [3])]]


PARTS = [Part("assoc_map", "AssocMap", "assoc_map.cc", lambda r, t: gen(r, t) + gen_big(r, t), dup=True),
         Part("assoc_map_owner", "AssocMap", "assoc_map.cc", gen, flags=["-DELEM=4"], explore=False, dup=True)]
